------------------------------ MODULE CK_Code ------------------------------
(* Validation of highlighted code: a record holds a script and the HTML that   *)
(* the highlighter wrote into a pre element, with its verdict.                 *)
EXTENDS Doc, Json, IOUtils
LOCAL INSTANCE SequencesExt
G == INSTANCE Grammar
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
No_(w) == [ok |-> FALSE, what |-> w]
Yes_ == [ok |-> TRUE]
Exact(evs) == FoldLeft(Merge, <<>>, evs)
Verdict(job, o) ==
  LET src == job.text
      lx == Tokenize(src)
      p == IF lx.ok THEN G!PProgram(G!Prepare(src, lx.toks)) ELSE [ok |-> FALSE]
      want == IF lx.ok THEN Exact(Code(src, lx.toks)) ELSE Exact(<<TextEv(src)>>)
      r == Read(o.html)
      got == Exact(r.evs)
      i == CHOOSE i \in 1..(Len(want) + 1) : (i > Len(want) \/ i > Len(got) \/ want[i] # got[i]) /\ \A j \in 1..(i - 1) : want[j] = got[j]
  IN IF o.verdict # (IF ~lx.ok THEN "lex" ELSE IF ~p.ok THEN "parse" ELSE "ok")
     THEN No_(IF ~lx.ok THEN "a tokenizer error" ELSE IF ~p.ok THEN "a syntax error" ELSE "success")
     ELSE IF ~r.ok THEN No_("well-formed HTML")
     ELSE IF want = got THEN Yes_
     ELSE No_("event " \o ToString(i) \o ": " \o (IF i > Len(want) THEN "the end" ELSE ToString(want[i])))
Init == l = 1 /\ bad = 0
Step_ == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET v == Verdict(Trace[l].job, Trace[l].obs) IN
            IF v.ok THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT("BAD " \o ToString(l) \o " " \o v.what)
Spec == Init /\ [][Step_]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
