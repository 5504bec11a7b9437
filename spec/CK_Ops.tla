------------------------------- MODULE CK_Ops -------------------------------
(* Conformance of recorded operator applications: every step consumes one      *)
(* record (operands and what the implementation answered) and accepts it only  *)
(* if the specification answers the same.                                      *)
EXTENDS Partial, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>

\* Int has 128 bits in the implementation; results beyond it are outside the property
InRange(r) == ~r.ok \/ ~Known(r.v) \/ r.v.t # TInt \/ IFitsI128(r.v.v)
\* KNOWN FINDING (V02): a negative Int is accepted as Uint(128)
NegTo128(x, t) == x.t = TInt /\ t = TUint(128) /\ Known(x) /\ x.v.n
Excluded(j) ==
  CASE j.k = "bin" -> NegTo128(j.x, j.y.t) \/ NegTo128(j.y, j.x.t)
    [] j.k = "conv" -> NegTo128(j.x, j.to)
    [] j.k = "if" -> NegTo128(j.x, j.y.t) \/ NegTo128(j.y, j.x.t)
    [] OTHER -> FALSE
SameV(a, b) == a.t = b.t /\ Known(a) = Known(b) /\ (Known(a) => a.v = b.v)
Same(e, o) == e.ok = o.ok /\ IF e.ok THEN SameV(e.v, o.v) ELSE e.e = o.e
SameT(e, o) == e.ok = o.ok /\ IF e.ok THEN e.v = o.v ELSE e.e = o.e

Expect(j) ==
  CASE j.k = "bin" -> [ty |-> BinaryType(j.x.t, j.op, j.y.t), pr |-> PBinary(j.x, j.op, j.y)]
    [] j.k = "un" -> [ty |-> UnaryType(j.op, j.x.t), pr |-> PUnary(j.op, j.x)]
    [] j.k = "conv" -> [ty |-> IF ConvertibleTo(j.x.t, j.to) THEN Ok(j.to) ELSE Err("incompatible_types"),
                        pr |-> PConvert(j.x, j.to)]
    [] j.k = "if" -> [ty |-> IfType(j.x.t, j.c.t, j.y.t), pr |-> PIf(j.x, j.c, j.y)]
Concrete(j) ==
  CASE j.k = "bin" -> EvalBinary(j.x, j.op, j.y)
    [] j.k = "un" -> EvalUnary(j.op, j.x)
    [] j.k = "conv" -> Convert(j.x, j.to)
    [] j.k = "if" -> EvalIf(j.x, j.c, j.y)

Verdict(j, o) ==
  LET e == Expect(j) IN
  IF ~SameT(e.ty, o.ty) THEN [ok |-> FALSE, what |-> "type", exp |-> e.ty]
  ELSE IF Excluded(j) THEN [ok |-> TRUE]
  ELSE IF InRange(e.pr) /\ ~Same(e.pr, o.pr) THEN [ok |-> FALSE, what |-> "partial", exp |-> e.pr]
  ELSE IF "r" \in DOMAIN o
       THEN LET c == Concrete(j) IN
            IF InRange(c) /\ ~Same(c, o.r) THEN [ok |-> FALSE, what |-> "value", exp |-> c] ELSE [ok |-> TRUE]
  ELSE [ok |-> TRUE]

Init == l = 1 /\ bad = 0
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Verdict(Trace[l].job, Trace[l].obs) IN
           IF v.ok THEN bad' = bad
           ELSE bad' = bad + 1 /\ PrintT("BAD " \o ToString(l) \o " " \o v.what \o " " \o ToJson(v.exp))
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
