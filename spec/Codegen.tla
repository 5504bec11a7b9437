------------------------------- MODULE Codegen -------------------------------
(* From elaborated functions (Lang.tla) to programs of the machine (VM.tla).   *)
(* Jumps are relative, so code can be put together freely; calls name their    *)
(* functions until the program is linked.  A function finds its arguments on   *)
(* the stack, the last one on top, and leaves its result there.                *)
EXTENDS Lang
M == INSTANCE VM
Push(v) == <<[i |-> "push", v |-> v]>>
JumpBy(o) == <<[i |-> "jump", o |-> o]>>
JumpIf(b, o) == <<[i |-> "jump_if", o |-> o, x |-> b]>>
RECURSIVE GE(_), GEB(_), GEF, GArgs(_, _), GS(_), GSB(_), GSF, GBlock(_, _)
GEF == [a \in Any |-> GEB(a[1])]
GE(x) == GEF[<<x>>]
To(x, t) == GE(x) \o <<[i |-> "convert", t |-> t]>>
GEB(x) ==
  CASE x.k = "c" -> Push(x.v)
    [] x.k = "var" -> <<[i |-> "load", key |-> x.key]>>
    [] x.k = "un" -> GE(x.x) \o <<[i |-> "unary", op |-> x.op]>>
    [] x.k = "bin" /\ x.op \notin Logical -> GE(x.x) \o GE(x.y) \o <<[i |-> "binary", op |-> x.op]>>
    [] x.k = "bin" /\ x.op \in Logical ->
         LET y == GE(x.y)
             d == x.op = "logical_or"
         IN GE(x.x) \o JumpIf(d, Len(y) + 1) \o y \o JumpBy(1) \o Push(VBool(d))
    [] x.k = "conv" -> To(x.x, x.t)
    [] x.k = "ife" ->
         LET a == To(x.x, x.t)
             b == To(x.y, x.t)
         IN GE(x.c) \o JumpIf(FALSE, Len(a) + 1) \o a \o JumpBy(Len(b)) \o b
    [] x.k = "assert" -> GE(x.x) \o <<[i |-> "assert"]>>
    [] x.k = "call" -> GArgs(x, 1) \o <<[i |-> "call", f |-> x.key]>>
GArgs(x, i) == IF i > Len(x.args) THEN <<>> ELSE To(x.args[i], x.ts[i]) \o GArgs(x, i + 1)
\* statements; break and continue stay symbolic until their loop is complete
GSF == [a \in Any |-> GSB(a[1])]
GS(s) == GSF[<<s>>]
GSB(s) ==
  CASE s.k = "set" -> To(s.x, s.t) \o <<[i |-> "store", key |-> s.key]>>
    [] s.k = "do" -> GE(s.x) \o <<[i |-> "pop"]>>
    [] s.k = "block" -> GBlock(s.body, 1)
    [] s.k = "if" ->
         LET t == GBlock(s.then, 1)
             e == IF s.else = <<>> THEN <<>> ELSE GS(s.else[1])
         IN IF e = <<>> THEN GE(s.c) \o JumpIf(FALSE, Len(t)) \o t
            ELSE GE(s.c) \o JumpIf(FALSE, Len(t) + 1) \o t \o JumpBy(Len(e)) \o e
    [] s.k = "while" ->
         LET c == GE(s.c)
             b == GBlock(s.body, 1)
             n == Len(c) + 1 + Len(b) + 1
             body == <<>> \o [i \in 1..Len(b) |-> LET at == Len(c) + 1 + i IN
                        CASE b[i].i = "break" -> [i |-> "jump", o |-> n - at]
                          [] b[i].i = "continue" -> [i |-> "jump", o |-> -at]
                          [] OTHER -> b[i]]
         IN c \o JumpIf(FALSE, Len(b) + 1) \o body \o JumpBy(-n)
    [] s.k \in {"break", "continue"} -> <<[i |-> s.k]>>
    [] s.k = "ret" -> (IF s.x = <<>> THEN Push(VVoid) ELSE To(s.x[1], s.t)) \o <<[i |-> "return"]>>
GBlock(ss, i) == IF i > Len(ss) THEN <<>> ELSE GS(ss[i]) \o GBlock(ss, i + 1)
RECURSIVE Params_(_, _)
Params_(f, i) == IF i = 0 THEN <<>> ELSE <<[i |-> "store", key |-> f.params[i]]>> \o Params_(f, i - 1)
\* running into the end of a function with a result reads a variable that does not exist
GFunction(f) == Params_(f, Len(f.params)) \o GBlock(f.body, 1)
                \o (IF f.ret = TVoid THEN Push(VVoid) ELSE <<[i |-> "load", key |-> "no result"]>>) \o <<[i |-> "return"]>>
\* functions in an order ks behind a first part
RECURSIVE Bodies(_, _, _), EntryOf(_, _, _, _), PushAll(_, _)
Bodies(code, ks, i) == IF i > Len(ks) THEN <<>> ELSE GFunction(code[ks[i]]) \o Bodies(code, ks, i + 1)
EntryOf(code, ks, i, k) == IF ks[i] = k THEN 0 ELSE Len(GFunction(code[ks[i]])) + EntryOf(code, ks, i + 1, k)
PushAll(args, i) == IF i > Len(args) THEN <<>> ELSE Push(args[i]) \o PushAll(args, i + 1)
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SeqOf(s \ {x})
\* calls f with the arguments and ends
Linked(code, f, args) ==
  LET ks == SeqOf(DOMAIN code)
      \* the jump over the functions ends behind the last instruction but one
      main == PushAll(args, 1) \o <<[i |-> "call", f |-> f]>>
      bodies == Bodies(code, ks, 1)
      all == main \o JumpBy(Len(bodies)) \o bodies \o <<[i |-> "jump", o |-> -1]>>
      start == Len(main) + 1
  IN <<>> \o [i \in 1..Len(all) |-> IF all[i].i = "call" THEN [i |-> "call", a |-> start + EntryOf(code, ks, 1, all[i].f)] ELSE all[i]]
RECURSIVE Follow(_, _, _), FollowB(_, _, _), FollowF
FollowF == [a \in Any |-> FollowB(a[1], a[2], a[3])]
Follow(prog, s, n) == FollowF[<<prog, s, n>>]
\* where the machine arrives: the final jump to itself is its regular end
FollowB(prog, s, n) ==
  IF n = 0 THEN [r |-> "skip"]
  ELSE IF s.ip = Len(prog) - 1 THEN [r |-> "end", s |-> s]
  ELSE LET c == M!Cycle(prog, s) IN IF c.r = "ok" THEN Follow(prog, c.s, n - 1) ELSE c
Machine(code, f, args) == Follow(Linked(code, f, args), M!Initial, 3000)
\* the same outcome as that of the direct execution x
Agrees(x, m) ==
  \/ (x.r = "e" /\ x.d.code = "skip") \/ m.r = "skip"
  \/ x.r = "v" /\ m.r = "end" /\ m.s.stack = <<x.v>> /\ Len(m.s.frames) = 1
  \/ x.r = "e" /\ m.r = "err" /\ m.e = x.d.sub /\ x.d.code = (IF m.e = "load_uninitialized" THEN "execution_error" ELSE "evaluation_error")
     /\ (m.e = "assertion_fail" => m.s.cmp = x.d.cmp)
=============================================================================
