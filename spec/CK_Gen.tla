------------------------------- MODULE CK_Gen -------------------------------
(* Conformance of code generation: a record holds a script, the options, and   *)
(* the generated text with its spans, or the reason why there is none.         *)
(* Script code has to be read as the tree it was made from; C and C++ code as  *)
(* the translation of that tree.                                               *)
EXTENDS Generated, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Verdict(job, o) ==
  LET ts == Prepare(job.text, Tokenize(job.text).toks)
      p == PProgram(ts)
      r == Compile(p.n)
  IN IF ~r.ok THEN (IF o.stage = "analysis" \/ r.e.code = "skip" THEN Yes_ ELSE No_("rejection"))
     ELSE LET v == IF job.lang = "bms" THEN Script(job.text, o) ELSE InC(p.n, r.S, job, o)
              e == SpansEnd(o.spans)
          IN IF ~v.ok \/ o.stage # "ok" THEN v
             ELSE IF e < 0 \/ e > Len(o.text) THEN No_("spans in the text, in order, without overlap") ELSE v
Init == l = 1 /\ bad = 0
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Verdict(Trace[l].job, Trace[l].obs) IN
           IF v.ok THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT("BAD " \o ToString(l) \o " " \o v.what)
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
