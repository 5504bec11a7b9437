--------------------------------- MODULE VM ---------------------------------
(* The virtual machine.  Its state is                                          *)
(*   stack   operands, the last one on top                                     *)
(*   frames  non-empty sequence of frames; a frame is its variables (a         *)
(*           function from keys to values) and the address to return to        *)
(*           (-1 for the outermost frame)                                      *)
(*   ip      address of the next instruction (0-based)                         *)
(*   cmp     <<>>, or the comparison whose result is on top of the stack and   *)
(*           about to be asserted: <<left, operator, right>>                   *)
(* An instruction is [i |-> name, ...].                                        *)
EXTENDS Partial, TLC

NoVars == [k \in {} |-> 0]
Outermost == [vars |-> NoVars, ret |-> -1]
Initial == [stack |-> <<>>, frames |-> <<Outermost>>, ip |-> 0, cmp |-> <<>>]

Depth(s) == Len(s.stack)
Top(s) == s.stack[Depth(s)]
Drop(s, n) == [s EXCEPT !.stack = SubSeq(@, 1, Depth(s) - n)]
Frame(s) == s.frames[Len(s.frames)]
PushV(s, v) == [s EXCEPT !.stack = Append(@, v)]

\* outcome of a cycle: the state behind it and "ok", or an error with its category
Went(s) == [r |-> "ok", e |-> "", s |-> s]
Stop(e, s) == [r |-> "err", e |-> e, s |-> s]
Onward(s) == Went([s EXCEPT !.ip = @ + 1])
Outside == [r |-> "end", e |-> ""]               \* behind the last instruction
Undefined == [r |-> "skip", e |-> ""]            \* an Int beyond 128 bits

Big(v) == v.t = TInt /\ ~IFitsI128(v.v)
Into128(x, t) == x.t = TInt /\ t = TUint(128) /\ x.v.n     \* known finding of V02
Answer(r, s) == IF ~r.ok THEN Stop(r.e, s) ELSE IF Big(r.v) THEN Undefined ELSE Onward(PushV(s, r.v))
Jump(prog, s, offset) ==
  LET to == s.ip + offset + 1
  IN IF to < 0 \/ to >= Len(prog) THEN Stop("jump_out_of_program", s) ELSE Went([s EXCEPT !.ip = to])

\* one instruction, not looking at whether the machine moved
Execute(prog, s0) ==
  LET n == prog[s0.ip + 1]
      s == [s0 EXCEPT !.cmp = <<>>]
      s1 == Drop(s, 1)
  IN CASE n.i = "push" -> Onward(PushV(s, n.v))
       [] n.i = "load" -> IF n.key \in DOMAIN Frame(s).vars THEN Onward(PushV(s, Frame(s).vars[n.key])) ELSE Stop("load_uninitialized", s)
       [] n.i = "store" -> IF Depth(s) = 0 THEN Stop("pop", s)
                           ELSE Onward([s1 EXCEPT !.frames[Len(s.frames)].vars = (n.key :> Top(s)) @@ @])
       [] n.i = "pop" -> IF Depth(s) = 0 THEN Stop("pop", s) ELSE Onward(s1)
       [] n.i = "jump" -> Jump(prog, s, n.o)
       [] n.i = "jump_if" -> IF Depth(s) = 0 THEN Stop("pop", s)
                             ELSE IF Top(s).t # TBool THEN Stop("jump_if_not_bool", s1)
                             ELSE IF Truth(Top(s)) = n.x THEN Jump(prog, s1, n.o) ELSE Onward(s1)
       [] n.i \in {"break", "continue"} -> Stop("symbolic_jump", s)
       [] n.i = "return" -> IF Len(s.frames) = 1 THEN Stop("pop_call", s)
                            ELSE Went([s EXCEPT !.ip = Frame(s).ret, !.frames = SubSeq(@, 1, Len(@) - 1)])
       [] n.i = "convert" -> IF Depth(s) = 0 THEN Stop("pop", s)
                             ELSE IF Into128(Top(s), n.t) THEN Undefined ELSE Answer(Convert(Top(s), n.t), s1)
       [] n.i = "unary" -> IF Depth(s) = 0 THEN Stop("pop", s) ELSE Answer(EvalUnary(n.op, Top(s)), s1)
       [] n.i = "binary" -> IF Depth(s) < 2 THEN Stop("pop", s)
                            ELSE LET x == s.stack[Depth(s) - 1]
                                     y == Top(s)
                                     r == Answer(EvalBinary(x, n.op, y), Drop(s, 2))
                                 IN IF Into128(x, y.t) \/ Into128(y, x.t) THEN Undefined
                                    ELSE IF r.r = "ok" THEN [r EXCEPT !.s.cmp = <<x, n.op, y>>] ELSE r
       [] n.i = "call" -> IF n.a >= Len(prog) THEN Stop("call_out_of_program", s)
                          ELSE Went([s EXCEPT !.ip = n.a, !.frames = Append(@, [vars |-> NoVars, ret |-> s.ip + 1])])
       [] n.i = "assert" -> IF Depth(s) = 0 THEN Stop("pop", s)
                            ELSE IF Top(s).t # TBool THEN Undefined
                            ELSE IF ~Truth(Top(s)) THEN Stop("assertion_fail", s0)
                            ELSE Onward(PushV(s1, VVoid))
Cycle(prog, s) ==
  IF s.ip >= Len(prog) THEN Outside
  ELSE LET r == Execute(prog, s)
       IN IF r.r = "ok" /\ r.s.ip = s.ip THEN Stop("infinite_loop", r.s) ELSE r
EvaluationErrors == {"assertion_fail", "type_error", "int_to_uint_range_error", "division_by_zero", "shift_too_much"}
=============================================================================
