-------------------------------- MODULE Lang --------------------------------
(* The meaning of scripts: typing and constant evaluation of a parsed program, *)
(* and the execution of functions at compile time.                             *)
(*                                                                             *)
(* The analysis walks the program in order and threads a state                 *)
(*   S = [gv   global constants evaluated so far: name -> value,               *)
(*        lv   per function instance: how far it has been analysed             *)
(*             (1 signature, 2 body, 3 ready to be executed),                  *)
(*        sig  per instance: types of the parameters and of the result,        *)
(*        code per instance: its body with all types resolved,                 *)
(*        inst per generic function: the sequence of its instances' widths].   *)
(* Every walk stops at the first diagnostic.  The diagnostics "skip" means     *)
(* that the program leaves what is specified (Int beyond 128 bits, a loop that *)
(* takes too long to follow).                                                  *)
EXTENDS Names, Partial, Tree

Unspecified == Diag("skip", 0, 0)
EvalDiag(sub, fl, cl) == [Diag("evaluation_error", fl, cl) EXCEPT !.sub = sub]
Bad(d) == [ok |-> FALSE, e |-> d]
IsComparison(n) == n.k = "bin" /\ n.op \in Comparison

\* ---- what is outside the specification
TooBig(v) == Known(v) /\ v.t = TInt /\ ~IFitsI128(v.v)
NegInto128(v, t) == Known(v) /\ v.t = TInt /\ t = TUint(128) /\ v.v.n
BinUnspecified(a, b, r) == NegInto128(a, b.t) \/ NegInto128(b, a.t) \/ (r.ok /\ TooBig(r.v))

\* ---- running elaborated code
(* Elaborated expressions: c constant, var, un, bin, conv, ife, call, assert;   *)
(* statements: let/assign "set", "do", if, while, block, break, continue, ret. *)
(* The store is [v |-> variables of the frame, f |-> steps left].              *)
Fuel == 300
Vl(v, st) == [r |-> "v", v |-> v, st |-> st]
Er(d) == [r |-> "e", d |-> d]
EvD(sub, cl) == Er(EvalDiag(sub, 0, cl))
CmpOf(a, op, b) == <<a, op, b>>
RunConv(r, t, l) ==                   \* r: a result
  IF r.r = "e" \/ r.v.t = t THEN r
  ELSE IF NegInto128(r.v, t) THEN Er(Unspecified)
  ELSE LET c == Convert(r.v, t) IN IF c.ok THEN Vl(c.v, r.st) ELSE EvD(c.e, l)

RECURSIVE RE(_, _, _), REB(_, _, _), REF, RArgs(_, _, _, _, _), RArgsB(_, _, _, _, _), RArgsF, RS(_, _, _), RSB(_, _, _), RSF, RBlock(_, _, _, _), RBlockB(_, _, _, _), RBlockF, RWhile(_, _, _), RWhileB(_, _, _), RWhileF
REF == [a \in Any |-> REB(a[1], a[2], a[3])]
RE(x, st, code) == REF[<<x, st, code>>]
REB(x, st, code) ==
  CASE x.k = "c" -> Vl(x.v, st)
    [] x.k = "var" -> IF x.key \in DOMAIN st.v THEN Vl(st.v[x.key], st)
                      ELSE Er([Diag("execution_error", 0, x.l) EXCEPT !.sub = "load_uninitialized"])
    [] x.k = "un" ->
         LET a == RE(x.x, st, code) IN
         IF a.r = "e" THEN a
         ELSE LET r == EvalUnary(x.op, a.v)
              IN IF ~r.ok THEN EvD(r.e, x.l) ELSE IF TooBig(r.v) THEN Er(Unspecified) ELSE Vl(r.v, a.st)
    [] x.k = "bin" ->
         LET a == RE(x.x, st, code) IN
         IF a.r = "e" THEN a
         ELSE IF x.op = "logical_and" THEN (IF Truth(a.v) THEN RE(x.y, a.st, code) ELSE a)
         ELSE IF x.op = "logical_or" THEN (IF Truth(a.v) THEN a ELSE RE(x.y, a.st, code))
         ELSE LET b == RE(x.y, a.st, code) IN
              IF b.r = "e" THEN b
              ELSE LET r == EvalBinary(a.v, x.op, b.v)
                   IN IF BinUnspecified(a.v, b.v, r) THEN Er(Unspecified)
                      ELSE IF ~r.ok THEN EvD(r.e, x.l) ELSE Vl(r.v, b.st)
    [] x.k = "conv" -> RunConv(RE(x.x, st, code), x.t, x.l)
    [] x.k = "ife" ->
         LET c == RE(x.c, st, code) IN
         IF c.r = "e" THEN c ELSE RunConv(RE(IF Truth(c.v) THEN x.x ELSE x.y, c.st, code), x.t, x.l)
    [] x.k = "assert" ->
         IF IsComparison(x.x)
         THEN LET a == RE(x.x.x, st, code)
                  b == IF a.r = "e" THEN a ELSE RE(x.x.y, a.st, code)
              IN IF b.r = "e" THEN b
                 ELSE LET r == EvalBinary(a.v, x.x.op, b.v)
                      IN IF BinUnspecified(a.v, b.v, r) THEN Er(Unspecified)
                         ELSE IF ~r.ok THEN EvD(r.e, x.x.l)
                         ELSE IF Truth(r.v) THEN Vl(VVoid, b.st)
                         ELSE Er([EvalDiag("assertion_fail", 0, x.l) EXCEPT !.cmp = CmpOf(a.v, x.x.op, b.v)])
         ELSE LET a == RE(x.x, st, code) IN
              IF a.r = "e" THEN a
              ELSE IF Truth(a.v) THEN Vl(VVoid, a.st)
              \* which values a conditional expression "compares" is not specified
              ELSE IF x.x.k = "ife" THEN Er(Unspecified)
              ELSE EvD("assertion_fail", x.l)
    [] x.k = "call" ->
         LET f == code[x.key]
             args == RArgs(x, 1, st, code, <<>>)
         IN IF args.r = "e" THEN args
            ELSE LET st2 == [v |-> [k \in {f.params[i] : i \in 1..Len(f.params)} |->
                                      args.v[CHOOSE i \in 1..Len(f.params) : f.params[i] = k]],
                             f |-> args.st.f]
                     r == RBlock(f.body, 1, st2, code)
                 IN (CASE r.r = "e" -> r
                      [] r.r = "ret" -> Vl(r.v, [args.st EXCEPT !.f = r.st.f])
                      [] f.ret = TVoid -> Vl(VVoid, [args.st EXCEPT !.f = r.st.f])
                      [] OTHER -> Er([Diag("execution_error", 0, f.l) EXCEPT !.sub = "load_uninitialized"]))
RArgsF == [a \in Any |-> RArgsB(a[1], a[2], a[3], a[4], a[5])]
RArgs(x, i, st, code, acc) == RArgsF[<<x, i, st, code, acc>>]
RArgsB(x, i, st, code, acc) ==
  IF i > Len(x.args) THEN Vl(acc, st)
  ELSE LET a == RunConv(RE(x.args[i], st, code), x.ts[i], x.l)
       IN IF a.r = "e" THEN a ELSE RArgs(x, i + 1, a.st, code, Append(acc, a.v))
Go(st) == [r |-> "go", st |-> st]
RSF == [a \in Any |-> RSB(a[1], a[2], a[3])]
RS(s, st, code) == RSF[<<s, st, code>>]
RSB(s, st, code) ==
  CASE s.k = "set" ->
         LET a == RunConv(RE(s.x, st, code), s.t, s.l)
         IN IF a.r = "e" THEN a ELSE Go([a.st EXCEPT !.v = (s.key :> a.v) @@ a.st.v])
    [] s.k = "do" -> LET a == RE(s.x, st, code) IN IF a.r = "e" THEN a ELSE Go(a.st)
    [] s.k = "block" -> RBlock(s.body, 1, st, code)
    [] s.k = "if" ->
         LET c == RE(s.c, st, code) IN
         IF c.r = "e" THEN c
         ELSE IF Truth(c.v) THEN RBlock(s.then, 1, c.st, code)
         ELSE IF s.else = <<>> THEN Go(c.st) ELSE RS(s.else[1], c.st, code)
    [] s.k = "while" -> RWhile(s, st, code)
    [] s.k = "break" -> [r |-> "brk", st |-> st]
    [] s.k = "continue" -> [r |-> "cnt", st |-> st]
    [] s.k = "ret" ->
         LET a == IF s.x = <<>> THEN Vl(VVoid, st) ELSE RunConv(RE(s.x[1], st, code), s.t, s.l)
         IN IF a.r = "e" THEN a ELSE [r |-> "ret", v |-> a.v, st |-> a.st]
RBlockF == [a \in Any |-> RBlockB(a[1], a[2], a[3], a[4])]
RBlock(ss, i, st, code) == RBlockF[<<ss, i, st, code>>]
RBlockB(ss, i, st, code) ==
  IF i > Len(ss) THEN Go(st)
  ELSE LET r == RS(ss[i], st, code) IN IF r.r = "go" THEN RBlock(ss, i + 1, r.st, code) ELSE r
RWhileF == [a \in Any |-> RWhileB(a[1], a[2], a[3])]
RWhile(s, st, code) == RWhileF[<<s, st, code>>]
RWhileB(s, st, code) ==
  IF st.f = 0 THEN Er(Unspecified)
  ELSE LET c == RE(s.c, st, code) IN
       IF c.r = "e" THEN c
       ELSE IF ~Truth(c.v) THEN Go(c.st)
       ELSE LET b == RBlock(s.body, 1, [c.st EXCEPT !.f = @ - 1], code)
            IN CASE b.r \in {"e", "ret"} -> b
                 [] b.r = "brk" -> Go(b.st)
                 [] OTHER -> RWhile(s, b.st, code)
RunCall(key, args, code) ==
  LET f == code[key]
  IN RE([k |-> "call", key |-> key, l |-> 0, ts |-> [i \in 1..Len(args) |-> args[i].t],
         args |-> [i \in 1..Len(args) |-> [k |-> "c", v |-> args[i]]]],
        [v |-> [k \in {} |-> VVoid], f |-> Fuel], code)

\* ---- bindings of names
BParam(l, key, t) == [b |-> "param", l |-> l, key |-> key, t |-> t]
BLet(l, key, t) == [b |-> "let", l |-> l, key |-> key, t |-> t]      \* t = <<>>: not yet defined
BConst(l, v) == [b |-> "const", l |-> l, v |-> v]                    \* v = <<>>: not yet defined
Globals(ds) ==
  LET named == {i \in 1..Len(ds) : ds[i].k # "sassert"}
  IN [n \in {ds[i].name : i \in named} |->
        LET d == ds[CHOOSE i \in named : ds[i].name = n]
        IN [b |-> IF d.k = "const" THEN "gconst" ELSE "fn", l |-> d.l]]
     @@ ("assert" :> [b |-> "builtin", l |-> NoPlace])
FunctionNames(ds) == {ds[i].name : i \in {j \in 1..Len(ds) : ds[j].k = "function"}}
RECURSIVE WidthsKey(_, _)
WidthsKey(ws, i) == IF i > Len(ws) THEN "" ELSE "," \o ToString(ws[i]) \o WidthsKey(ws, i + 1)
InstanceKey(f, ws) == f \o WidthsKey(ws, 1)

\* ---- analysis
(* C: what surrounds an expression: P program [ds, env, fn, gen], f name of    *)
(* the function, key of its instance, gens whether that is an instance of a    *)
(* generic function, stk functions under analysis, ret, rl result type and its *)
(* line, loop whether inside a loop.                                           *)
Res(v, S, x) == [ok |-> TRUE, v |-> v, S |-> S, x |-> x]
CX(n, v) == IF Known(v) THEN [k |-> "c", v |-> v] ELSE n

RECURSIVE An(_, _, _, _, _, _), AnB(_, _, _, _, _, _), AnF, AnArgs(_, _, _, _, _, _, _, _), AnArgsB(_, _, _, _, _, _, _, _), AnArgsF, AnType(_, _, _, _), AnCall(_, _, _, _, _, _), AnFn(_, _, _, _, _, _), AnFnB(_, _, _, _, _, _), AnFnF,
          AnStmt(_, _, _, _, _), AnStmtB(_, _, _, _, _), AnStmtF, AnBlock(_, _, _, _, _, _), AnBlockB(_, _, _, _, _, _), AnBlockF, AnParams(_, _, _, _, _, _), AnParamsB(_, _, _, _, _, _), AnParamsF, AnCallTo(_, _, _, _, _, _, _, _)

\* evaluation failed outside of a constant expression: the value is just not known
Settle(r, ty, c, l, S, x) == IF r.ok THEN Res(r.v, S, x) ELSE IF c THEN Bad(EvalDiag(r.e, l, NoCause)) ELSE Res(Unknown(ty), S, x)

AnType(n, env, S, C) ==
  IF n.w = <<>> THEN [ok |-> TRUE, t |-> <<n.t>>, S |-> S]
  ELSE LET w == An(n.w[1], env, TRUE, 3, S, C) IN
       IF ~w.ok THEN w
       ELSE IF ~IsInteger(w.v.t) THEN Bad(Diag("width_not_integer", n.w[1].l, NoCause))
       ELSE IF w.v.v.n \/ w.v.v = IZero \/ NCmp(w.v.v.m, NFromNat(MaxWidth)) > 0 THEN Bad(Diag("width_invalid", n.w[1].l, NoCause))
       ELSE [ok |-> TRUE, t |-> TUint(NToNat(w.v.v.m)), S |-> w.S]

\* n expression, env names, c: constant expression required, lvl, S, C
AnF == [a \in Any |-> AnB(a[1], a[2], a[3], a[4], a[5], a[6])]
An(n, env, c, lvl, S, C) == AnF[<<n, env, c, lvl, S, C>>]
AnB(n, env, c, lvl, S, C) ==
  CASE n.k = "int" ->
         LET m == LiteralNat(n.v) IN
         IF ~Fits128(m) THEN Bad(Diag("invalid_integer_literal", n.l, NoCause))
         ELSE IF ~IFitsI128(INat(m)) THEN Bad(Unspecified)
         ELSE Res(VInt(INat(m)), S, [k |-> "c", v |-> VInt(INat(m))])
    [] n.k = "bool" -> Res(VBool(n.v), S, [k |-> "c", v |-> VBool(n.v)])
    [] n.k = "id" ->
         LET b == env[n.name] IN
        (CASE b.b = "param" -> IF c THEN Bad(Diag("parameter_in_constant_expression", n.l, b.l))
                               ELSE Res(Unknown(b.t), S, [k |-> "var", l |-> n.l, key |-> b.key])
           [] b.b \in {"fn", "builtin"} -> Bad(Diag("function_in_expression", n.l, b.l))
           [] b.b = "let" -> IF c THEN Bad(Diag("let_variable_in_constant_expression", n.l, b.l))
                             ELSE IF b.t = <<>> THEN Bad(Diag("use_of_undefined_variable", n.l, b.l))
                             ELSE Res(Unknown(b.t), S, [k |-> "var", l |-> n.l, key |-> b.key])
           [] b.b = "const" -> IF b.v = <<>> THEN Bad(Diag("use_of_undefined_constant", n.l, b.l))
                               ELSE Res(b.v[1], S, [k |-> "c", v |-> b.v[1]])
           [] b.b = "gconst" -> IF n.name \notin DOMAIN S.gv THEN Bad(Diag("use_of_undefined_constant", n.l, b.l))
                                ELSE Res(S.gv[n.name], S, [k |-> "c", v |-> S.gv[n.name]]))
    [] n.k = "un" ->
         LET a == An(n.x, env, c, lvl, S, C) IN
         IF ~a.ok THEN a
         ELSE LET ty == UnaryType(n.op, a.v.t) IN
              IF ~ty.ok THEN Bad(Diag(ty.e, n.l, NoCause))
              ELSE LET r == PUnary(n.op, a.v) IN
                   IF r.ok /\ TooBig(r.v) THEN Bad(Unspecified)
                   ELSE Settle(r, ty.v, c, n.l, a.S, [k |-> "un", l |-> n.l, op |-> n.op, x |-> a.x])
    [] n.k = "bin" ->
         LET a == An(n.x, env, c, lvl, S, C) IN
         IF ~a.ok THEN a
         ELSE IF c /\ n.op \in Logical /\ a.v.t # TBool THEN Bad(Diag("non_bool_logical", n.l, n.x.l))
         ELSE LET decided == c /\ n.op \in Logical /\ Truth(a.v) = (n.op = "logical_or")
                  c2 == c /\ ~decided
                  b == An(n.y, env, c2, lvl, a.S, C)
              IN IF ~b.ok THEN b
                 ELSE LET ty == BinaryType(a.v.t, n.op, b.v.t) IN
                      IF ~ty.ok THEN Bad(Diag(ty.e, n.l, NoCause))
                      ELSE LET r == PBinary(a.v, n.op, b.v) IN
                           IF BinUnspecified(a.v, b.v, r) THEN Bad(Unspecified)
                           ELSE Settle(r, ty.v, c2, n.l, b.S, [k |-> "bin", l |-> n.l, op |-> n.op, x |-> a.x, y |-> b.x])
    [] n.k = "conv" ->
         LET a == An(n.x, env, c, lvl, S, C)
             t == IF a.ok THEN AnType(n.ty, env, a.S, C) ELSE a
         IN IF ~t.ok THEN t
            ELSE IF ~ConvertibleTo(a.v.t, t.t) THEN Bad(Diag("incompatible_types", n.l, n.ty.l))
            ELSE IF NegInto128(a.v, t.t) THEN Bad(Unspecified)
            ELSE Settle(PConvert(a.v, t.t), t.t, c, n.l, t.S, [k |-> "conv", l |-> n.l, x |-> a.x, t |-> t.t])
    [] n.k = "ife" ->
         LET q == An(n.c, env, c, lvl, S, C) IN
         IF ~q.ok THEN q
         ELSE IF q.v.t # TBool THEN Bad(Diag("condition_not_bool", n.l, n.c.l))
         ELSE LET a == An(n.x, env, c /\ Truth(q.v), lvl, q.S, C) IN
              IF ~a.ok THEN a
              ELSE LET b == An(n.y, env, c /\ ~Truth(q.v), lvl, a.S, C) IN
                   IF ~b.ok THEN b
                   ELSE LET ty == IfType(a.v.t, q.v.t, b.v.t) IN
                        IF ~ty.ok THEN Bad(Diag(ty.e, n.l, NoCause))
                        ELSE IF NegInto128(a.v, b.v.t) \/ NegInto128(b.v, a.v.t) THEN Bad(Unspecified)
                        ELSE Settle(PIf(a.v, q.v, b.v), ty.v, c, n.l, b.S,
                                    [k |-> "ife", l |-> n.l, x |-> a.x, c |-> q.x, y |-> b.x, t |-> ty.v])
    [] n.k = "call" -> AnCall(n, env, c, lvl, S, C)

\* arguments; vs, xs: values and elaborations so far
AnArgsF == [a \in Any |-> AnArgsB(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])]
AnArgs(as, i, env, c, lvl, S, C, acc) == AnArgsF[<<as, i, env, c, lvl, S, C, acc>>]
AnArgsB(as, i, env, c, lvl, S, C, acc) ==
  IF i > Len(as) THEN [ok |-> TRUE, S |-> S, a |-> acc]
  ELSE LET a == An(as[i], env, c, lvl, S, C)
       IN IF ~a.ok THEN a
          ELSE AnArgs(as, i + 1, env, c, lvl, a.S, C, Append(acc, [v |-> a.v, x |-> a.x]))
RECURSIVE Deduce(_, _, _, _, _), CheckArgs(_, _, _, _, _, _), CheckArgsB(_, _, _, _, _, _), CheckArgsF
Deduce(n, f, at, i, as) ==             \* the widths of the generic parameters, or the diagnostic
  IF i > Len(at) THEN [ok |-> TRUE, w |-> <<>>]
  ELSE IF ~IsUint(as[at[i]].v.t)
       THEN Bad(Diag("width_deduction_from_non_uint", n.args[at[i]].l, f.params[at[i]].ty.w[1].l))
  ELSE LET r == Deduce(n, f, at, i + 1, as) IN IF ~r.ok THEN r ELSE [ok |-> TRUE, w |-> <<Width(as[at[i]].v.t)>> \o r.w]
\* [ok, w |-> converted arguments]
CheckArgsF == [a \in Any |-> CheckArgsB(a[1], a[2], a[3], a[4], a[5], a[6])]
CheckArgs(n, f, sig, as, i, c) == CheckArgsF[<<n, f, sig, as, i, c>>]
CheckArgsB(n, f, sig, as, i, c) ==
  IF i > Len(as) THEN [ok |-> TRUE, w |-> <<>>]
  ELSE LET t == sig.ps[i] IN
       IF ~ConvertibleTo(as[i].v.t, t) THEN Bad(Diag("incompatible_types", n.l, f.params[i].l))
       ELSE IF c /\ NegInto128(as[i].v, t) THEN Bad(Unspecified)
       ELSE LET v == PConvert(as[i].v, t) IN
            IF c /\ ~v.ok THEN Bad(EvalDiag(v.e, n.l, f.params[i].l))
            ELSE LET r == CheckArgs(n, f, sig, as, i + 1, c)
                 IN IF ~r.ok THEN r ELSE [ok |-> TRUE, w |-> <<IF v.ok THEN v.v ELSE Unknown(t)>> \o r.w]
AnAssert(n, as, c, S) ==
  IF Len(as) # 1 THEN Bad(Diag("wrong_number_of_arguments", n.l, NoPlace))
  ELSE IF as[1].v.t # TBool THEN Bad(Diag("wrong_argument_type", n.l, NoPlace))
  ELSE LET x == [k |-> "assert", l |-> n.l, x |-> as[1].x] IN
       IF ~Known(as[1].v) \/ Truth(as[1].v) THEN Res(IF Known(as[1].v) THEN VVoid ELSE Unknown(TVoid), S, x)
       ELSE IF c THEN Bad([EvalDiag("assertion_fail", n.l, NoPlace) EXCEPT
                             !.cmp = IF IsComparison(n.args[1]) THEN as[1].x ELSE <<>>])
       ELSE Res(Unknown(TVoid), S, x)
AnCall(n, env, c, lvl, S, C) ==
  LET r == AnArgs(n.args, 1, env, c, lvl, S, C, <<>>)
      b == env[n.name]
  IN IF ~r.ok THEN r
     ELSE CASE b.b = "builtin" ->
                 LET q == AnAssert(n, r.a, c, r.S)
                 IN \* the compared values: in a constant expression both operands are known
                    IF q.ok \/ q.e.cmp = <<>> THEN q
                    ELSE LET x == An(n.args[1].x, env, TRUE, lvl, S, C)
                             y == An(n.args[1].y, env, TRUE, lvl, S, C)
                         IN Bad([q.e EXCEPT !.cmp = CmpOf(x.v, n.args[1].op, y.v)])
            [] b.b = "fn" ->
                 LET f == C.P.fn[n.name] IN
                 IF Len(f.params) # Len(n.args) THEN Bad(Diag("wrong_number_of_arguments", n.l, b.l))
                 ELSE IF C.P.gen[n.name] = <<>> THEN AnCallTo(n, f, n.name, <<>>, c, lvl, [r EXCEPT !.S = r.S], C)
                 \* inside an instance the function's own name is that instance
                 ELSE IF C.f = n.name THEN AnCallTo(n, f, C.key, C.ws, c, lvl, r, C)
                 ELSE LET d == Deduce(n, f, C.P.gen[n.name], 1, r.a) IN
                      IF ~d.ok THEN d
                      ELSE LET is == r.S.inst[n.name]
                               S2 == IF \E i \in 1..Len(is) : is[i] = d.w THEN r.S
                                     ELSE [r.S EXCEPT !.inst[n.name] = Append(@, d.w)]
                           IN AnCallTo(n, f, InstanceKey(n.name, d.w), d.w, c, lvl, [r EXCEPT !.S = S2], C)
            [] OTHER -> Bad(Diag("call_non_function", n.l, b.l))
Level(S, key) == IF key \in DOMAIN S.lv THEN S.lv[key] ELSE 0
AnCallTo(n, f, key, ws, c, lvl, r, C) ==
  LET inner == IF c \/ lvl = 3 THEN 3 ELSE 1 IN
  IF (inner = 3 \/ Level(r.S, key) = 0) /\ key \in C.stk THEN Bad(Diag("codegen_call_to_unanalyzed", n.l, f.l))
  ELSE LET g == AnFn(f, key, ws, inner, r.S, C) IN
       IF ~g.ok THEN g
       ELSE LET sig == g.S.sig[key]
                a == CheckArgs(n, f, sig, r.a, 1, c)
            IN IF ~a.ok THEN a
               ELSE IF ~c THEN Res(Unknown(sig.ret), g.S,
                                   [k |-> "call", l |-> n.l, key |-> key, ts |-> sig.ps, args |-> [i \in 1..Len(r.a) |-> r.a[i].x]])
               ELSE LET v == RunCall(key, a.w, g.S.code) IN
                    IF v.r = "e" THEN Bad([v.d EXCEPT !.fl = n.l]) ELSE Res(v.v, g.S, [k |-> "c", v |-> v.v])

\* ---- functions
Key(n) == n.name \o "#" \o ToString(n.b)
\* types of the parameters; ws: widths left for the generic ones at positions at
AnParamsF == [a \in Any |-> AnParamsB(a[1], a[2], a[3], a[4], a[5], a[6])]
AnParams(f, i, env, S, C, acc) == AnParamsF[<<f, i, env, S, C, acc>>]
AnParamsB(f, i, env, S, C, acc) ==
  IF i > Len(f.params) THEN [ok |-> TRUE, S |-> S, t |-> acc]
  ELSE LET t == AnType(f.params[i].ty, env, S, C)
       IN IF ~t.ok THEN t ELSE AnParams(f, i + 1, env, t.S, C, Append(acc, t.t))
AnFnF == [a \in Any |-> AnFnB(a[1], a[2], a[3], a[4], a[5], a[6])]
AnFn(f, key, ws, lvl, S, C0) == AnFnF[<<f, key, ws, lvl, S, C0>>]
AnFnB(f, key, ws, lvl, S, C0) ==
  IF Level(S, key) >= lvl THEN [ok |-> TRUE, S |-> S]
  ELSE
  LET at == C0.P.gen[f.name]
      C1 == [C0 EXCEPT !.f = f.name, !.key = key, !.ws = ws, !.stk = @ \cup {key}, !.loop = FALSE]
      widths == [n \in {f.params[at[i]].ty.w[1].name : i \in 1..Len(at)} |->
                   LET i == CHOOSE j \in 1..Len(at) : f.params[at[j]].ty.w[1].name = n
                   IN [b |-> "const", l |-> f.params[at[i]].ty.w[1].l, v |-> <<VInt(IFrom(ws[i]))>>]]
      names(ts) == [n \in {f.params[i].name : i \in 1..Len(f.params)} |->
                   LET i == CHOOSE j \in 1..Len(f.params) : f.params[j].name = n
                   IN BParam(f.params[i].l, n, IF i <= Len(ts) THEN ts[i] ELSE TVoid)]
      outer == C0.P.env
      ps == AnParams(f, 1, names(<<>>) @@ widths @@ outer, S, C1, <<>>)
  IN IF ~ps.ok THEN ps
     ELSE LET env == names(ps.t) @@ widths @@ outer
              rt == AnType(f.ret, env, ps.S, C1)
          IN IF ~rt.ok THEN rt
             ELSE LET q == IF f.req = <<>> THEN Res(VBool(TRUE), rt.S, <<>>) ELSE An(f.req[1], env, TRUE, 3, rt.S, C1) IN
                  IF ~q.ok THEN q
                  ELSE IF q.v.t # TBool THEN Bad(Diag("requires_clause_not_bool", f.req[1].l, f.l))
                  ELSE IF ~Truth(q.v) THEN Bad(Diag("requires_clause_not_satisfied", f.req[1].l, f.l))
                  ELSE LET S1 == [q.S EXCEPT !.lv = (key :> IF Level(q.S, key) = 0 THEN 1 ELSE q.S.lv[key]) @@ @,
                                             !.sig = (key :> [ps |-> ps.t, ret |-> rt.t]) @@ @]
                           C2 == [C1 EXCEPT !.ret = rt.t, !.rl = f.ret.l]
                       IN IF lvl < 2 THEN [ok |-> TRUE, S |-> S1]
                          ELSE LET b == AnBlock(f.body.body, 1, env, lvl, [ok |-> TRUE, S |-> S1, x |-> <<>>], C2) IN
                               IF ~b.ok THEN b
                               ELSE [ok |-> TRUE,
                                     S |-> [b.S EXCEPT !.lv = (key :> lvl) @@ @,
                                            !.code = IF lvl < 3 THEN @
                                                     ELSE (key :> [l |-> f.l, ret |-> rt.t, body |-> b.x,
                                                                   params |-> [i \in 1..Len(f.params) |-> f.params[i].name]]) @@ @]]
\* statements: acc.x is the elaboration so far
AnBlockF == [a \in Any |-> AnBlockB(a[1], a[2], a[3], a[4], a[5], a[6])]
AnBlock(ss, i, env, lvl, acc, C) == AnBlockF[<<ss, i, env, lvl, acc, C>>]
AnBlockB(ss, i, env, lvl, acc, C) ==
  IF i > Len(ss) THEN acc
  ELSE LET r == AnStmt(ss[i], env, lvl, acc.S, C)
       IN IF ~r.ok THEN r ELSE AnBlock(ss, i + 1, r.env, lvl, [acc EXCEPT !.S = r.S, !.x = acc.x \o r.x], C)
Done(S, x, env) == [ok |-> TRUE, S |-> S, x |-> x, env |-> env]
\* a constant: [ok, v, S]
AnConst(n, env, S, C) ==
  LET t == IF n.ty = <<>> THEN [ok |-> TRUE, S |-> S] ELSE AnType(n.ty[1], env, S, C)
      a == IF t.ok THEN An(n.init[1], env, TRUE, 3, t.S, C) ELSE t
  IN IF ~a.ok THEN a
     ELSE IF n.ty = <<>> THEN [ok |-> TRUE, v |-> a.v, S |-> a.S]
     ELSE IF ~ConvertibleTo(a.v.t, t.t) THEN Bad(Diag("incompatible_types", n.l, n.init[1].l))
     ELSE IF NegInto128(a.v, t.t) THEN Bad(Unspecified)
     ELSE LET v == PConvert(a.v, t.t)
          IN IF ~v.ok THEN Bad(EvalDiag(v.e, n.l, n.init[1].l)) ELSE [ok |-> TRUE, v |-> v.v, S |-> a.S]
AnStaticAssert(n, env, S, C) ==
  LET a == An(n.x, env, TRUE, 3, S, C) IN
  IF ~a.ok THEN a
  ELSE IF a.v.t # TBool THEN Bad(Diag("static_assert_expression_not_bool", n.l, n.x.l))
  ELSE IF Truth(a.v) THEN [ok |-> TRUE, S |-> a.S]
  ELSE IF ~IsComparison(n.x) THEN Bad(Diag("static_assertion_failed", n.l, n.x.l))
  ELSE LET x == An(n.x.x, env, TRUE, 3, S, C)
           y == An(n.x.y, env, TRUE, 3, S, C)
       IN Bad([Diag("static_assertion_failed", n.l, n.x.l) EXCEPT !.cmp = CmpOf(x.v, n.x.op, y.v)])
AnStmtF == [a \in Any |-> AnStmtB(a[1], a[2], a[3], a[4], a[5])]
AnStmt(n, env, lvl, S, C) == AnStmtF[<<n, env, lvl, S, C>>]
AnStmtB(n, env, lvl, S, C) ==
  CASE n.k = "const" ->
         LET a == AnConst(n, (n.name :> BConst(n.l, <<>>)) @@ env, S, C)
         IN IF ~a.ok THEN a ELSE Done(a.S, <<>>, (n.name :> BConst(n.l, <<a.v>>)) @@ env)
    [] n.k = "let" ->
         LET env1 == (n.name :> BLet(n.l, Key(n), <<>>)) @@ env
             t == IF n.ty = <<>> THEN [ok |-> TRUE, S |-> S] ELSE AnType(n.ty[1], env1, S, C)
             a == IF ~t.ok THEN t ELSE IF n.init = <<>> THEN [ok |-> TRUE, S |-> t.S] ELSE An(n.init[1], env1, FALSE, lvl, t.S, C)
         IN IF ~a.ok THEN a
            ELSE LET ty == IF n.ty = <<>> THEN a.v.t ELSE t.t
                     env2 == (n.name :> BLet(n.l, Key(n), ty)) @@ env
                 IN IF n.init = <<>> THEN Done(a.S, <<>>, env2)
                    ELSE IF ~ConvertibleTo(a.v.t, ty) THEN Bad(Diag("incompatible_types", n.l, n.init[1].l))
                    ELSE IF NegInto128(a.v, ty) THEN Bad(Unspecified)
                    ELSE Done(a.S, <<[k |-> "set", l |-> n.l, key |-> Key(n), t |-> ty, x |-> a.x]>>, env2)
    [] n.k = "sassert" -> LET a == AnStaticAssert(n, env, S, C) IN IF ~a.ok THEN a ELSE Done(a.S, <<>>, env)
    [] n.k = "assign" ->
         LET b == env[n.name] IN
        (CASE b.b = "param" -> Bad(Diag("assigning_parameter", n.l, b.l))
           [] b.b \in {"fn", "builtin"} -> Bad(Diag("assigning_function", n.l, b.l))
           [] b.b \in {"const", "gconst"} -> Bad(Diag("assigning_const", n.l, b.l))
           [] b.b = "let" ->
                LET a == An(n.x, env, FALSE, lvl, S, C) IN
                IF ~a.ok THEN a
                ELSE IF ~ConvertibleTo(a.v.t, b.t) THEN Bad(Diag("incompatible_types", n.l, n.x.l))
                ELSE IF NegInto128(a.v, b.t) THEN Bad(Unspecified)
                ELSE Done(a.S, <<[k |-> "set", l |-> n.l, key |-> b.key, t |-> b.t, x |-> a.x]>>, env))
    [] n.k = "callst" -> LET a == An(n.x, env, FALSE, lvl, S, C)
                         IN IF ~a.ok THEN a ELSE Done(a.S, <<[k |-> "do", x |-> a.x]>>, env)
    [] n.k = "block" -> LET b == AnBlock(n.body, 1, env, lvl, [ok |-> TRUE, S |-> S, x |-> <<>>], C)
                        IN IF ~b.ok THEN b ELSE Done(b.S, <<[k |-> "block", body |-> b.x]>>, env)
    [] n.k = "if" ->
         LET c == An(n.c, env, FALSE, lvl, S, C) IN
         IF ~c.ok THEN c
         ELSE IF c.v.t # TBool THEN Bad(Diag("condition_not_bool", n.l, n.c.l))
         ELSE LET t == AnBlock(n.then.body, 1, env, lvl, [ok |-> TRUE, S |-> c.S, x |-> <<>>], C)
                  e == IF ~t.ok THEN t ELSE IF n.else = <<>> THEN Done(t.S, <<>>, env) ELSE AnStmt(n.else[1], env, lvl, t.S, C)
              IN IF ~e.ok THEN e
                 ELSE Done(e.S, <<[k |-> "if", c |-> c.x, then |-> t.x, else |-> e.x]>>, env)
    [] n.k = "while" ->
         LET c == An(n.c, env, FALSE, lvl, S, C) IN
         IF ~c.ok THEN c
         ELSE IF c.v.t # TBool THEN Bad(Diag("condition_not_bool", n.l, n.c.l))
         ELSE LET b == AnBlock(n.body.body, 1, env, lvl, [ok |-> TRUE, S |-> c.S, x |-> <<>>], [C EXCEPT !.loop = TRUE])
              IN IF ~b.ok THEN b ELSE Done(b.S, <<[k |-> "while", c |-> c.x, body |-> b.x]>>, env)
    [] n.k \in {"break", "continue"} ->
         IF ~C.loop THEN Bad(Diag(n.k \o "_outside_loop", n.l, NoCause)) ELSE Done(S, <<[k |-> n.k]>>, env)
    [] n.k = "return" ->
         IF n.x = <<>>
         THEN IF C.ret # TVoid THEN Bad(Diag("empty_return_in_non_void_function", n.l, C.rl))
              ELSE Done(S, <<[k |-> "ret", x |-> <<>>]>>, env)
         ELSE LET a == An(n.x[1], env, FALSE, lvl, S, C) IN
              IF ~a.ok THEN a
              ELSE IF ~ConvertibleTo(a.v.t, C.ret) THEN Bad(Diag("incompatible_types", n.l, C.rl))
              ELSE IF NegInto128(a.v, C.ret) THEN Bad(Unspecified)
              ELSE Done(a.S, <<[k |-> "ret", l |-> n.l, t |-> C.ret, x |-> <<a.x>>]>>, env)

\* ---- programs
RECURSIVE AnDecls(_, _, _, _), AnDeclsB(_, _, _, _), AnDeclsF, AnInstances(_, _, _, _, _), AnPending(_, _, _, _)
AnInstances(f, i, lvl, S, C) ==
  IF i > Len(S.inst[f.name]) THEN [ok |-> TRUE, S |-> S]
  ELSE LET ws == S.inst[f.name][i]
           r == AnFn(f, InstanceKey(f.name, ws), ws, lvl, S, C)
       IN IF ~r.ok THEN r ELSE AnInstances(f, i + 1, lvl, r.S, C)
AnDecl(d, S, C) ==
  CASE d.k = "const" -> LET a == AnConst(d, C.P.env, S, C)
                        IN IF ~a.ok THEN a ELSE [ok |-> TRUE, S |-> [a.S EXCEPT !.gv = (d.name :> a.v) @@ @]]
    [] d.k = "sassert" -> AnStaticAssert(d, C.P.env, S, C)
    [] d.k = "function" -> IF C.P.gen[d.name] = <<>> THEN AnFn(d, d.name, <<>>, 2, S, C) ELSE AnInstances(d, 1, 2, S, C)
AnDeclsF == [a \in Any |-> AnDeclsB(a[1], a[2], a[3], a[4])]
AnDecls(ds, i, S, C) == AnDeclsF[<<ds, i, S, C>>]
AnDeclsB(ds, i, S, C) == IF i > Len(ds) THEN [ok |-> TRUE, S |-> S]
                        ELSE LET r == AnDecl(ds[i], S, C) IN IF ~r.ok THEN r ELSE AnDecls(ds, i + 1, r.S, C)
\* generic functions may have got instances behind their declarations
RECURSIVE SumInstances(_, _, _)
SumInstances(gs, i, S) == IF i > Len(gs) THEN 0 ELSE Len(S.inst[gs[i].name]) + SumInstances(gs, i + 1, S)
AnPending(gs, i, S, C) ==
  IF i > Len(gs) THEN [ok |-> TRUE, S |-> S]
  ELSE LET r == AnInstances(gs[i], 1, 2, S, C) IN IF ~r.ok THEN r ELSE AnPending(gs, i + 1, r.S, C)
RECURSIVE AnAllInstances(_, _, _, _), AnAllInstancesB(_, _, _, _), AnAllInstancesF
AnAllInstancesF == [a \in Any |-> AnAllInstancesB(a[1], a[2], a[3], a[4])]
AnAllInstances(gs, count, S, C) == AnAllInstancesF[<<gs, count, S, C>>]
AnAllInstancesB(gs, count, S, C) ==
  IF count = SumInstances(gs, 1, S) THEN [ok |-> TRUE, S |-> S]
  ELSE LET r == AnPending(gs, 1, S, C) IN IF ~r.ok THEN r ELSE AnAllInstances(gs, SumInstances(gs, 1, S), r.S, C)
Generics(ds, gen) == SelectSeq(ds, LAMBDA d : d.k = "function" /\ gen[d.name] # <<>>)
NoFcn == [n \in {} |-> 0]
ProgramOf(ds) ==
  LET env == Globals(ds)
      fns == FunctionNames(ds)
      fn == [n \in fns |-> ds[CHOOSE i \in 1..Len(ds) : ds[i].k = "function" /\ ds[i].name = n]]
  IN \* (@@ makes TLC evaluate a function at once)
     [ds |-> ds, env |-> env, fn |-> fn @@ NoFcn, gen |-> [n \in fns |-> GenericAt(fn[n], DOMAIN env, 1, {})] @@ NoFcn]
Analysis(ds) ==
  LET P == ProgramOf(ds)
      gs == Generics(ds, P.gen)
      C == [P |-> P, f |-> "", key |-> "", ws |-> <<>>, stk |-> {}, ret |-> TVoid, rl |-> 0, loop |-> FALSE]
      e == [n \in {} |-> 0]
      S0 == [gv |-> e, lv |-> e, sig |-> e, code |-> e, inst |-> [n \in {gs[i].name : i \in 1..Len(gs)} |-> <<>>]]
      r == AnDecls(ds, 1, S0, C)
  IN IF ~r.ok THEN r ELSE AnAllInstances(gs, 0, r.S, C)
\* the verdict on a parsed program: [ok, S] or [ok FALSE, e]
Compile(ds) ==
  LET a == AnnProgram(ds)
      n == IF a # Fine THEN a ELSE NmProgram(ds)
  IN IF n # Fine THEN Bad(n[1]) ELSE Analysis(ds)
=============================================================================
