----------------------------- MODULE Generated -----------------------------
(* What generated text has to be: script code has to be read as the tree it    *)
(* was made from, C and C++ code as the translation of that tree.              *)
EXTENDS Translate
LOCAL INSTANCE SequencesExt
No_(w) == [ok |-> FALSE, what |-> w]
Yes_ == [ok |-> TRUE]
\* a tree without places
Placeless(ts) == [i \in 1..Len(ts) |-> [ts[i] EXCEPT !.l = 0, !.b = 0]]
\* spans lie in the text, in order, without overlap: the end of the last one, or a negative number
SpansEnd(spans) == FoldLeft(LAMBDA e, s : IF e >= 0 /\ s[1] >= e /\ s[2] > 0 THEN s[1] + s[2] ELSE -1, 0, spans)
Differs(want, got) == CHOOSE i \in 1..(Len(want) + 1) : (i > Len(want) \/ i > Len(got) \/ want[i] # got[i]) /\ \A j \in 1..(i - 1) : want[j] = got[j]
Script(src, o) ==
  LET was == PProgram(Placeless(Prepare(src, Tokenize(src).toks)))
      lx == Tokenize(o.text)
      ts == IF lx.ok THEN Placeless(Prepare(o.text, lx.toks)) ELSE <<>>
      p == IF lx.ok THEN PProgram(ts) ELSE [ok |-> FALSE]
  IN IF o.stage # "ok" THEN No_("generated code")
     ELSE IF ~lx.ok THEN No_("text that consists of tokens")
     ELSE IF ~p.ok THEN No_("text that follows the grammar; the offending token is at offset " \o (IF p.i <= Len(ts) THEN ToString(Prepare(o.text, lx.toks)[p.i].b) ELSE "(end)"))
     ELSE LET a == ShowProgram(was.n) IN IF ShowProgram(p.n) # a THEN No_(a) ELSE Yes_
TranslationOf(ds, S, job) == Translation(ds, S, [cpp |-> job.lang = "cpp", c23 |-> job.c23 = 1, bitint |-> job.bitint = 1])
InC(ds, S, job, o) ==
  LET t == TranslationOf(ds, S, job)
      r == CRead(o.text)
  IN IF ~t.ok
     THEN IF t.why = "skip" THEN Yes_ ELSE IF o.stage = "width" THEN Yes_ ELSE No_("refusal of a width")
     ELSE IF o.stage # "ok" THEN No_("generated code")
     ELSE IF ~r.ok THEN No_("well-formed code; token " \o ToString(r.i) \o " (" \o CTx(CTokens(o.text), r.i) \o ") is wrong")
     ELSE IF r.n = t.n THEN Yes_
     ELSE LET i == Differs(t.n, r.n) IN No_("declaration " \o ToString(i) \o ": " \o (IF i > Len(t.n) THEN "none" ELSE t.n[i]))
=============================================================================
