----------------------------- MODULE MC_Values -----------------------------
(* The operator semantics, exhaustively for small widths: every state is one   *)
(* application of an operator to operands, and its invariants say what the     *)
(* result must be in terms of the checker's own integers.                      *)
EXTENDS Values, TLC
CONSTANTS MaxW, IntMax
VARIABLES x, y, op, res
vars == <<x, y, op, res>>

Types == {TVoid, TBool, TInt} \cup {TUint(n) : n \in 1..MaxW}
Dom(t) == CASE t = TVoid -> {0} [] t = TBool -> {0, 1} [] t = TInt -> -IntMax..IntMax
            [] IsUint(t) -> 0..(2^t[2] - 1)
AllVals == UNION {{Val(t, IFrom(i)) : i \in Dom(t)} : t \in Types}
None == [ok |-> FALSE, e |-> "none"]
Init == x \in AllVals /\ y \in AllVals /\ op = "" /\ res = None
Binary == op = "" /\ \E o \in BinaryOps : op' = o /\ res' = EvalBinary(x, o, y) /\ UNCHANGED <<x, y>>
Unary == op = "" /\ y = VVoid /\ \E o \in UnaryOps : op' = o /\ res' = EvalUnary(o, x) /\ UNCHANGED <<x, y>>
Conversion == op = "" /\ op' = "conversion" /\ res' = Convert(x, y.t) /\ UNCHANGED <<x, y>>
Next == Binary \/ Unary \/ Conversion
Spec == Init /\ [][Next]_vars

Type == IF op \in BinaryOps THEN BinaryType(x.t, op, y.t)
        ELSE IF op \in UnaryOps THEN UnaryType(op, x.t)
        ELSE IF ConvertibleTo(x.t, y.t) THEN Ok(y.t) ELSE Err("incompatible_types")
\* well-typed operations give a well-formed value of that type or one of the documented errors;
\* ill-typed ones are always type errors
TypeSound == op # "" =>
  /\ (~Type.ok => ~res.ok /\ res.e = "type_error")
  /\ (Type.ok /\ res.ok => res.v.t = Type.v /\ WellFormed(res.v))
  /\ (Type.ok /\ ~res.ok => res.e \in {"division_by_zero", "shift_too_much", "int_to_uint_range_error"})
  /\ (res.ok /\ res.v.t = TVoid => op = "conversion")
\* which error, and only then
Common == CommonType(x.t, y.t)
Fits(v, t) == ~IsUint(t) \/ (ITo(v.v) >= 0 /\ ITo(v.v) < 2^t[2])
Failures == op \in BinaryOps /\ Type.ok =>
  LET c == Common.v
      conv == Fits(x, c) /\ Fits(y, c)
  IN (~res.ok) <=> (\/ ~conv
                    \/ op \in {"division", "remainder"} /\ ITo(y.v) = 0
                    \/ op \in Shifts /\ ITo(y.v) >= c[2])
\* the mathematical values
a == ITo(x.v)
b == ITo(y.v)
Abs(i) == IF i < 0 THEN -i ELSE i
TDiv(i, j) == LET q == Abs(i) \div Abs(j) IN IF (i < 0) # (j < 0) THEN -q ELSE q
Red(i, t) == IF IsUint(t) THEN i % 2^t[2] ELSE i
B2I(p) == IF p THEN 1 ELSE 0
Bit(i, k) == (i \div 2^k) % 2
RECURSIVE Bits(_, _, _, _)
Bits(o, i, j, k) == IF k < 0 THEN 0 ELSE Bits(o, i, j, k - 1) + 2^k *
   (CASE o = "bitwise_and" -> Bit(i, k) * Bit(j, k) [] o = "bitwise_xor" -> (Bit(i, k) + Bit(j, k)) % 2
      [] o = "bitwise_or" -> B2I(Bit(i, k) + Bit(j, k) > 0))
Results == op # "" /\ res.ok =>
  LET r == ITo(res.v.v)
      t == res.v.t
  IN CASE op = "binary_plus" -> r = Red(a + b, t) [] op = "binary_minus" -> r = Red(a - b, t)
       [] op = "multiplication" -> r = Red(a * b, t)
       [] op = "division" -> r = TDiv(a, b) [] op = "remainder" -> r = a - b * TDiv(a, b)
       [] op = "shift_left" -> r = (a * 2^b) % 2^t[2] [] op = "shift_right" -> r = a \div 2^b
       [] op \in {"bitwise_and", "bitwise_or", "bitwise_xor"} -> r = Bits(op, a, b, MaxW - 1)
       [] op = "logical_and" -> r = a * b [] op = "logical_or" -> r = B2I(a + b > 0)
       [] op = "equals" -> r = B2I(a = b) [] op = "not_equals" -> r = B2I(a # b)
       [] op = "less_than" -> r = B2I(a < b) [] op = "greater_than" -> r = B2I(a > b)
       [] op = "less_or_equal" -> r = B2I(a <= b) [] op = "greater_or_equal" -> r = B2I(a >= b)
       [] op = "unary_plus" -> r = a [] op = "unary_minus" -> r = Red(-a, t)
       [] op = "bitwise_not" -> r = 2^t[2] - 1 - a [] op = "logical_not" -> r = 1 - a
       [] op = "conversion" -> r = a
============================================================================
