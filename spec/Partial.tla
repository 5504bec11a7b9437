------------------------------ MODULE Partial ------------------------------
(* Evaluation with operands that may be unknown (a type without a value): what *)
(* the analysis of a function body knows about an expression.                  *)
EXTENDS Values

Known(x) == "v" \in DOMAIN x
Unknown(t) == [t |-> t]

PConvert(x, t) == IF ~ConvertibleTo(x.t, t) THEN Err("type_error")
                  ELSE IF Known(x) THEN Convert(x, t) ELSE Ok(Unknown(t))

PUnary(op, x) ==
  IF ~UnaryType(op, x.t).ok THEN Err("type_error")
  ELSE IF Known(x) THEN EvalUnary(op, x) ELSE Ok(x)

PBinary(x, op, y) ==
  LET ty == BinaryType(x.t, op, y.t) IN
  IF ~ty.ok THEN Err("type_error")
  ELSE LET c == CommonType(x.t, y.t).v
           a == PConvert(x, c)
           b == PConvert(y, c)
       IN IF ~a.ok THEN a ELSE IF ~b.ok THEN b
          ELSE IF Known(a.v) /\ Known(b.v) THEN EvalSame(c, a.v.v, op, b.v.v)
          \* a known left operand decides && and || alone
          ELSE IF Known(a.v) /\ ((op = "logical_and" /\ ~Truth(a.v)) \/ (op = "logical_or" /\ Truth(a.v))) THEN a
          \* some right operands are wrong whatever the left one is
          ELSE IF Known(b.v) /\ op \in {"division", "remainder"} /\ b.v.v = IZero THEN Err("division_by_zero")
          ELSE IF Known(b.v) /\ op \in Shifts /\ NCmp(b.v.v.m, NFromNat(c[2])) >= 0 THEN Err("shift_too_much")
          ELSE Ok(Unknown(ty.v))

PIf(l, c, r) ==
  LET ty == IfType(l.t, c.t, r.t) IN
  IF ~ty.ok THEN Err("type_error")
  ELSE IF ~Known(c) THEN Ok(Unknown(ty.v)) ELSE PConvert(IF Truth(c) THEN l ELSE r, ty.v)
=============================================================================
