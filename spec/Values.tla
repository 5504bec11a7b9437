------------------------------- MODULE Values -------------------------------
(* Types, values, typing rules and evaluation rules of the operators.          *)
(* A type is <<"Void">>, <<"Bool">>, <<"Int">> or <<"Uint", N>>.               *)
(* A value is [t |-> type, v |-> integer] (Bool: 0/1, Void: 0).                *)
EXTENDS BigInt

TVoid == <<"Void">>
TBool == <<"Bool">>
TInt == <<"Int">>
TUint(n) == <<"Uint", n>>
IsUint(t) == t[1] = "Uint"
IsInteger(t) == t[1] \in {"Int", "Uint"}
Width(t) == IF IsUint(t) THEN t[2] ELSE 0
MaxWidth == 128

Val(t, v) == [t |-> t, v |-> v]
VBool(b) == Val(TBool, IF b THEN IOne ELSE IZero)
VInt(i) == Val(TInt, i)
VVoid == Val(TVoid, IZero)
Truth(x) == x.v = IOne

Ok(x) == [ok |-> TRUE, v |-> x]
Err(e) == [ok |-> FALSE, e |-> e]

UnaryArith == {"unary_plus", "unary_minus"}
UnaryOps == UnaryArith \cup {"logical_not", "bitwise_not"}
Arith == {"binary_plus", "binary_minus", "multiplication", "division", "remainder"}
Shifts == {"shift_left", "shift_right"}
Bitw == {"bitwise_and", "bitwise_or", "bitwise_xor"} \cup Shifts
Logical == {"logical_and", "logical_or"}
Equality == {"equals", "not_equals"}
Relational == {"less_than", "greater_than", "less_or_equal", "greater_or_equal"}
Comparison == Equality \cup Relational
BinaryOps == Arith \cup Bitw \cup Logical \cup Comparison

\* the typing error categories
CommonType(a, b) ==
  IF a = b THEN Ok(a)
  ELSE IF IsUint(a) /\ IsUint(b) THEN Err("incompatible_widths")
  ELSE IF a = TInt /\ IsUint(b) THEN Ok(b)
  ELSE IF IsUint(a) /\ b = TInt THEN Ok(a)
  ELSE Err("incompatible_types")

UnaryType(op, t) ==
  CASE t = TVoid -> Err("void_operation")
    [] t = TBool -> IF op \in UnaryArith THEN Err("bool_arithmetic")
                    ELSE IF op = "bitwise_not" THEN Err("bool_bitwise") ELSE Ok(t)
    [] t = TInt -> IF op = "bitwise_not" THEN Err("int_bitwise")
                   ELSE IF op = "logical_not" THEN Err("int_logical") ELSE Ok(t)
    [] IsUint(t) -> IF op = "logical_not" THEN Err("uint_logical") ELSE Ok(t)

BinaryType(a, op, b) ==
  IF a = TVoid \/ b = TVoid THEN Err("void_operation")
  ELSE LET c == CommonType(a, b) IN
  IF ~c.ok THEN c
  ELSE LET t == c.v IN
  CASE t = TBool -> IF op \in Arith THEN Err("bool_arithmetic")
                    ELSE IF op \in Bitw THEN Err("bool_bitwise")
                    ELSE IF op \in Relational THEN Err("bool_relational_comparison") ELSE Ok(TBool)
    [] t = TInt -> IF op \in Bitw THEN Err("int_bitwise")
                   ELSE IF op \in Logical THEN Err("int_logical")
                   ELSE Ok(IF op \in Comparison THEN TBool ELSE t)
    [] IsUint(t) -> IF op \in Logical THEN Err("uint_logical")
                    ELSE Ok(IF op \in Comparison THEN TBool ELSE t)

IfType(l, c, r) == IF c # TBool THEN Err("condition_not_bool") ELSE CommonType(l, r)

ConvertibleTo(a, b) == a = b \/ (a = TInt /\ IsUint(b))

\* lossless conversion of a known value
Convert(x, t) ==
  IF x.t = t THEN Ok(x)
  ELSE IF ~ConvertibleTo(x.t, t) THEN Err("type_error")
  ELSE IF IFitsU(x.v, t[2]) THEN Ok(Val(t, x.v)) ELSE Err("int_to_uint_range_error")

EvalUnary(op, x) ==
  LET ty == UnaryType(op, x.t) IN
  IF ~ty.ok THEN Err("type_error")
  ELSE CASE op = "logical_not" -> Ok(VBool(~Truth(x)))
         [] op = "unary_plus" -> Ok(x)
         [] op = "unary_minus" -> IF x.t = TInt THEN Ok(VInt(INeg(x.v)))
                                  ELSE Ok(Val(x.t, INat(IMod2(INeg(x.v), x.t[2]))))
         [] op = "bitwise_not" -> Ok(Val(x.t, INat(NSub(NOnes(x.t[2]), x.v.m))))

Compare(op, c) ==
  CASE op = "equals" -> c = 0 [] op = "not_equals" -> c # 0
    [] op = "less_than" -> c < 0 [] op = "greater_than" -> c > 0
    [] op = "less_or_equal" -> c <= 0 [] op = "greater_or_equal" -> c >= 0

\* Int results are exact: the documented Int is unbounded.  The implementation's Int has 128
\* bits, so the checks only ask for results that fit (see IFitsI128).
EvalSame(t, a, op, b) ==           \* both operands have type t
  CASE op \in Comparison -> Ok(VBool(Compare(op, ICmp(a, b))))
    [] op = "logical_and" -> Ok(VBool(a = IOne /\ b = IOne))
    [] op = "logical_or" -> Ok(VBool(a = IOne \/ b = IOne))
    [] op \in {"division", "remainder"} ->
         IF b = IZero THEN Err("division_by_zero")
         ELSE Ok(Val(t, IF op = "division" THEN IDiv(a, b) ELSE IRem(a, b)))
    [] op \in {"binary_plus", "binary_minus", "multiplication"} ->
         LET r == CASE op = "binary_plus" -> IAdd(a, b) [] op = "binary_minus" -> ISub(a, b)
                    [] op = "multiplication" -> IMul(a, b)
         IN Ok(Val(t, IF t = TInt THEN r ELSE INat(IMod2(r, t[2]))))
    [] op = "bitwise_and" -> Ok(Val(t, INat(NAnd(a.m, b.m))))
    [] op = "bitwise_or" -> Ok(Val(t, INat(NOr(a.m, b.m))))
    [] op = "bitwise_xor" -> Ok(Val(t, INat(NXor(a.m, b.m))))
    [] op \in Shifts ->
         IF NCmp(b.m, NFromNat(t[2])) >= 0 THEN Err("shift_too_much")
         ELSE LET k == NToNat(b.m) IN
              Ok(Val(t, INat(IF op = "shift_left" THEN NLow(NShl(a.m, k), t[2]) ELSE NShr(a.m, k))))

EvalBinary(x, op, y) ==
  LET ty == BinaryType(x.t, op, y.t) IN
  IF ~ty.ok THEN Err("type_error")
  ELSE LET c == CommonType(x.t, y.t).v
           a == Convert(x, c)
           b == Convert(y, c)
       IN IF ~a.ok THEN a ELSE IF ~b.ok THEN b ELSE EvalSame(c, a.v.v, op, b.v.v)

EvalIf(l, c, r) ==
  LET ty == IfType(l.t, c.t, r.t) IN
  IF ~ty.ok THEN Err("type_error") ELSE Convert(IF Truth(c) THEN l ELSE r, ty.v)

\* Is the value one its type can hold?  (well-formedness, checked as an invariant)
WellFormed(x) ==
  CASE x.t = TVoid -> x.v = IZero
    [] x.t = TBool -> x.v \in {IZero, IOne}
    [] x.t = TInt -> TRUE
    [] IsUint(x.t) -> x.t[2] \in 1..MaxWidth /\ IFitsU(x.v, x.t[2])
=============================================================================
