------------------------------ MODULE CK_Lang ------------------------------
(* Conformance of the analysis: a record holds a script and what compiling it  *)
(* ended in; each step accepts one record.  job.see says what is compared:     *)
(* c the diagnostic's category, l its lines, m its compared values, v values   *)
(* of constants, y types of constants, i instances, d the printed diagnostic.  *)
EXTENDS Lang, Diag, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
No_(w) == [ok |-> FALSE, what |-> w]
Yes_ == [ok |-> TRUE]
SameVal(a, b) == a.t = b.t /\ Known(a) = Known(b) /\ (Known(a) => a.v = b.v)
SameCmp(e, o) == IF e.cmp = <<>> THEN "cmp" \notin DOMAIN o
                 ELSE "cmp" \in DOMAIN o /\ SameVal(e.cmp[1], o.cmp[1]) /\ e.cmp[2] = o.cmp[2] /\ SameVal(e.cmp[3], o.cmp[3])
RECURSIVE ConstsDiffer(_, _, _, _)
ConstsDiffer(cs, i, gv, see) ==
  IF i > Len(cs) THEN Yes_
  ELSE LET c == cs[i] IN
       IF c.n \notin DOMAIN gv THEN No_("no constant " \o c.n)
       ELSE IF "y" \in see /\ (c.v.t # gv[c.n].t \/ ~Known(c.v)) THEN No_(c.n \o " has type " \o ToString(gv[c.n].t))
       ELSE IF "v" \in see /\ ~SameVal(gv[c.n], c.v) THEN No_(c.n \o " is " \o ToJson(gv[c.n]))
       ELSE ConstsDiffer(cs, i + 1, gv, see)
Set(s) == {s[i] : i \in 1..Len(s)}
InstDiffer(is, inst) ==
  \E i \in 1..Len(is) : (is[i].g # (is[i].n \in DOMAIN inst)) \/
     (is[i].g /\ (Set(is[i].w) # Set(inst[is[i].n]) \/ Len(is[i].w) # Len(inst[is[i].n])))
\* every generic function instantiated for the width ws in addition
WithAll(ds, inst, ws) ==
  LET P == ProgramOf(ds)
      w(n) == [k \in 1..Len(P.gen[n]) |-> ws]
  IN [n \in DOMAIN inst |-> IF w(n) \in Set(inst[n]) THEN inst[n] ELSE Append(inst[n], w(n))]
\* a value as it is printed
RECURSIVE Decimal(_)
Decimal(m) == IF m = <<>> THEN <<>> ELSE LET q == NDivMod(m, NFromNat(10)) IN Decimal(q.q) \o <<48 + NToNat(q.r)>>
Spelled(v) == CASE v.t[1] = "Bool" -> Codes(IF Truth(v) THEN "true" ELSE "false")
                [] v.t[1] = "Void" -> Codes("Void")
                [] OTHER -> LET d == Decimal(v.v.m) IN (IF v.v.n THEN <<45>> ELSE <<>>) \o (IF d = <<>> THEN <<48>> ELSE d)
Sign == [equals |-> "==", not_equals |-> "!=", less_than |-> "<", greater_than |-> ">", less_or_equal |-> "<=", greater_or_equal |-> ">="]
Said(e) == IF e.cmp = <<>> \/ ~Known(e.cmp[1]) \/ ~Known(e.cmp[3]) THEN <<>>
           ELSE Spelled(e.cmp[1]) \o Codes(" " \o Sign[e.cmp[2]] \o " ") \o Spelled(e.cmp[3])
\* at the end of the file: anywhere behind the last token
FailLines(src, toks, ts, i) == IF i <= Len(ts) THEN {ts[i].l} ELSE LineAt(src, EndOfTokens(toks))..LineAt(src, Len(src))
Printed(job, o, fls, cl, said) ==
  IF "d" \notin Set(job.see) THEN Yes_
  ELSE LET w == Amiss(job.text, job.name, o.diag, fls, cl, said) IN IF w = "" THEN Yes_ ELSE No_("printed: " \o w)
Verdict(job, o) ==
  LET see == Set(job.see)
      lx == Tokenize(job.text)
      ts == IF lx.ok THEN Prepare(job.text, lx.toks) ELSE <<>>
      p == IF lx.ok THEN PProgram(ts) ELSE [ok |-> FALSE]
  IN IF ~lx.ok THEN (IF o.stage # "lex" THEN No_("a tokenizer error") ELSE Printed(job, o, {lx.l}, -2, <<>>))
     ELSE IF ~p.ok THEN (IF o.stage # "parse" THEN No_("a syntax error") ELSE Printed(job, o, FailLines(job.text, lx.toks, ts, p.i), -2, <<>>))
     ELSE LET r == Compile(p.n) IN
          IF ~r.ok
          THEN LET e == r.e IN
               IF e.code = "skip" THEN Yes_
               ELSE IF o.stage # "analysis" THEN No_(ToString(e))
               ELSE IF "c" \in see /\ (o.err.code # e.code \/ o.err.sub # e.sub) THEN No_(ToString(e))
               ELSE IF "l" \in see /\ (o.err.fl # e.fl \/ o.err.cl # e.cl) THEN No_(ToString(e))
               ELSE IF "m" \in see /\ ~SameCmp(e, o.err) THEN No_(ToString(e))
               ELSE Printed(job, o, {e.fl}, e.cl, Said(e))
          ELSE IF o.stage # "ok" THEN No_("acceptance")
          ELSE LET c == ConstsDiffer(o.consts, 1, r.S.gv, see) IN
               IF ~c.ok THEN c
               ELSE IF "i" \in see /\ InstDiffer(o.inst, r.S.inst) THEN No_("instances " \o ToString(r.S.inst))
               ELSE IF "all" \in DOMAIN o /\ (~o.all.ok \/ InstDiffer(o.all.inst, WithAll(p.n, r.S.inst, job.width)))
                    THEN No_("instances " \o ToString(WithAll(p.n, r.S.inst, job.width)))
               ELSE Yes_
\* (see CK_LangStrict.cfg)
Never(v, t) == FALSE
FitsInt(m) == IFitsI128(INat(m))
Init == l = 1 /\ bad = 0
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Verdict(Trace[l].job, Trace[l].obs) IN
           IF v.ok THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT("BAD " \o ToString(l) \o " " \o v.what)
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
