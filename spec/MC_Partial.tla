----------------------------- MODULE MC_Partial -----------------------------
(* Partial evaluation never claims more than the evaluation of every completion*)
(* of its operands gives: exhaustively for small widths.                       *)
EXTENDS Partial, TLC
CONSTANTS MaxW, IntMax
VARIABLES x, y, op
vars == <<x, y, op>>
Types == {TBool, TInt} \cup {TUint(n) : n \in 1..MaxW}
Dom(t) == CASE t = TBool -> {0, 1} [] t = TInt -> -IntMax..IntMax [] IsUint(t) -> 0..(2^t[2] - 1)
ValsOf(t) == {Val(t, IFrom(i)) : i \in Dom(t)}
PVals == UNION {ValsOf(t) \cup {Unknown(t)} : t \in Types}
Completions(p) == IF Known(p) THEN {p} ELSE ValsOf(p.t)
Init == x \in PVals /\ y \in PVals /\ op = ""
Next == op = "" /\ op' \in BinaryOps \cup {"if"} /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars
\* `left decides' is lazy: the right operand then never matters
Lazy(a, o, b) == IF a.t = TBool /\ b.t = TBool /\ ((o = "logical_and" /\ ~Truth(a)) \/ (o = "logical_or" /\ Truth(a))) THEN Ok(a)
                 ELSE EvalBinary(a, o, b)
Sound == op \in BinaryOps =>
  LET r == PBinary(x, op, y)
      all == {Lazy(a, op, b) : a \in Completions(x), b \in Completions(y)}
  IN /\ (r.ok /\ Known(r.v) => all = {r})
     /\ (r.ok => \A s \in all : s.ok => s.v.t = r.v.t)
     /\ (~r.ok => \A s \in all : ~s.ok)
     /\ (~r.ok /\ r.e = "type_error" <=> ~BinaryType(x.t, op, y.t).ok)
Exact == op \in BinaryOps /\ Known(x) /\ Known(y) => PBinary(x, op, y) = EvalBinary(x, op, y)
IfSound == op = "if" => \A c \in {Unknown(TBool), VBool(TRUE), VBool(FALSE)} :
  LET r == PIf(x, c, y)
      all == {EvalIf(a, k, b) : a \in Completions(x), k \in Completions(c), b \in Completions(y)}
  IN /\ (r.ok /\ Known(r.v) => all = {r}) /\ (~r.ok => \A s \in all : ~s.ok)
============================================================================
