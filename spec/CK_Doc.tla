------------------------------ MODULE CK_Doc -------------------------------
(* Validation of markup documents: a record holds a text and what became of    *)
(* it: the tree or the error of the parser and, for "html", the page or the    *)
(* error of the renderer.                                                      *)
EXTENDS Doc, Diag, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
No_(w) == [ok |-> FALSE, what |-> w]
Yes_ == [ok |-> TRUE]
RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN i ELSE IF a[i] # b[i] THEN i ELSE FirstDiff(a, b, i + 1)
Str(e) == e.k \o " " \o Word(e.id, 0, Len(e.id)) \o " " \o Word(e.t, 0, Len(e.t)) \o " " \o ToString(e.at)
Where(job, e, o) ==
  LET src == job.text
      at == PosOf(src, e.p)
      w == IF "file" \in DOMAIN job THEN Amiss(src, job.file, o.diag, {at.line}, -2, <<>>) ELSE ""
  IN
  IF o.e = e.e /\ o.b = e.p /\ o.l = at.line /\ o.c = at.col THEN (IF w = "" THEN Yes_ ELSE No_("printed: " \o w))
  ELSE No_(e.e \o " at offset " \o ToString(e.p) \o ", line " \o ToString(at.line) \o ", column " \o ToString(at.col))
Verdict(job, o) ==
  LET src == job.text
      d == Document(src)
  IN IF ~d.ok THEN IF o.stage # "parse" THEN No_("refused: " \o ToString(d)) ELSE Where(job, d, o)
     ELSE IF o.stage = "parse" THEN No_("the text is a document")
     ELSE IF o.tree # Nums(src, d.n) THEN No_("the tree " \o ToString(Nums(src, d.n)))
     ELSE IF job.want # "html" THEN Yes_
     ELSE LET w == Whole(d.n, job.sheets) IN
          IF ~w.ok THEN IF o.stage # "render" THEN No_("not rendered: " \o ToString(w)) ELSE Where(job, w, o)
          ELSE IF o.stage = "render" THEN No_("the document can be rendered")
          ELSE LET r == Read(o.html)
                   e == Unordered(Shown(w.evs))
                   g == Unordered(Shown(r.evs))
                   i == FirstDiff(e, g, 1)
               IN IF ~r.ok \/ Nesting(r.evs) # [ok |-> TRUE, open |-> <<>>] THEN No_("well-formed HTML")
                  ELSE IF e = g THEN Yes_
                  ELSE No_("event " \o ToString(i) \o ": " \o (IF i <= Len(e) THEN Str(e[i]) ELSE "the end")
                           \o " instead of " \o (IF i <= Len(g) THEN Str(g[i]) ELSE "the end"))
Init == l = 1 /\ bad = 0
Step_ == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET v == Verdict(Trace[l].job, Trace[l].obs) IN
            IF v.ok THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT("BAD " \o ToString(l) \o " " \o v.what)
Spec == Init /\ [][Step_]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
