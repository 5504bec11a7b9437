------------------------------- MODULE CK_Cli -------------------------------
(* Runs of the command-line program.  A job says what it was called with and   *)
(* what the file holds; the observation is its status, what it printed (out,   *)
(* err: without colors) and the contents of the output file.                   *)
EXTENDS Generated, Dump, Json, IOUtils
C == INSTANCE Cli
D == INSTANCE Doc
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
\* what the stages of a job do
Lexed(job) == Tokenize(job.text)
Parsed(job) == PProgram(Prepare(job.text, Lexed(job).toks))
Doc_(job) == D!Document(job.text)
Sheets == <<Codes("/css/code.css"), Codes("/css/main.css")>>
Page_(job) == D!Whole(Doc_(job).n, Sheets)
\* generated code: without any options
Target(job) == IF \E t \in C!Targets : job.lang \in C!Names[t] THEN CHOOSE t \in C!Targets : job.lang \in C!Names[t] ELSE ""
Plain(job) == [text |-> job.text, lang |-> Target(job), c23 |-> 0, bitint |-> 0]
Annotated(job) == \E i \in 1..Len(job.text) : job.text[i] = 64
Good(job) ==
  LET bms == job.kind = "file" /\ job.suffix = "bms" /\ job.cmd \in C!Commands
      bmd == job.kind = "file" /\ job.suffix = "bmd" /\ job.cmd \in C!Commands
      lx == bms /\ Lexed(job).ok
      p == IF lx THEN Parsed(job) ELSE [ok |-> FALSE]
      a == IF p.ok /\ job.cmd \in {"verify", "generate"} THEN Compile(p.n) ELSE [ok |-> FALSE, e |-> [code |-> "-"]]
      d == IF bmd THEN Doc_(job) ELSE [ok |-> FALSE]
      h == d.ok /\ job.cmd = "html" /\ Page_(job).ok
      x == a.ok /\ job.cmd = "generate" /\ Target(job) \in {"c", "cpp"}
      tr == IF x THEN TranslationOf(p.n, a.S, Plain(job)) ELSE [ok |-> Target(job) = "bms"]
  IN [skip |-> (~a.ok /\ a.e.code = "skip") \/ (x /\ ~tr.ok /\ tr.why = "skip"),
      set |-> (IF job.kind = "file" THEN {"load"} ELSE {}) \cup (IF lx THEN {"tokenize"} ELSE {})
              \cup (IF p.ok THEN {"parse"} ELSE {}) \cup (IF a.ok THEN {"analyze"} ELSE {})
              \cup (IF d.ok THEN {"document"} ELSE {}) \cup (IF h THEN {"render"} ELSE {})
              \cup (IF job.sink \in {"closed", "absent"} THEN {} ELSE {"open"}) \cup (IF job.sink = "full" THEN {} ELSE {"write"})
              \cup (IF \E t \in C!Targets : job.lang \in C!Names[t] THEN {"language"} ELSE {})
              \cup (IF a.ok /\ job.cmd = "generate" /\ tr.ok THEN {"generate"} ELSE {})]
\* the list of tokens: LINE:COLUMN: KIND and, for what can be spelled in several ways, the text
RECURSIVE Skip(_, _)
Skip(s, p) == IF At(s, p) = 32 THEN Skip(s, p + 1) ELSE p
Spelled == {"identifier", "binary_literal", "octal_literal", "decimal_literal", "hexadecimal_literal", "line_comment", "block_comment",
            "string_literal"}
RECURSIVE Listed(_, _, _, _, _), ListedB(_, _, _, _, _), ListedF
ListedF == [a \in Any |-> ListedB(a[1], a[2], a[3], a[4], a[5])]
Listed(src, toks, i, s, p) == ListedF[<<src, toks, i, s, p>>]
ListedB(src, toks, i, s, p) ==
  IF i > Len(toks) THEN (IF p = Len(s) THEN 0 ELSE i)
  ELSE LET t == toks[i]
           line == NumC(t.l + 1) \o <<58>>
           col == NumC(t.c + 1) \o <<58>>
           kind == Codes(t.t)
           text == IF t.t \in Spelled THEN <<40>> \o Part(src, t.b, t.b + t.n) \o <<41>> ELSE <<>>
           p1 == Skip(s, p)
           p2 == Skip(s, p1 + Len(line))
           p3 == Skip(s, p2 + Len(col))
           p4 == p3 + Len(kind)
       IN IF Starts(s, p1, line) /\ Starts(s, p2, col) /\ Starts(s, p3, kind) /\ Starts(s, p4, text) /\ ~IsIdChar(At(s, p4 + Len(text)))
          THEN Listed(src, toks, i + 1, s, EndOfLine(s, p4 + Len(text)) + 1) ELSE i
Same(job, html) ==
  LET r == D!Read(html) IN r.ok /\ D!Nesting(r.evs) = [ok |-> TRUE, open |-> <<>>]
                           /\ D!Unordered(D!Shown(r.evs)) = D!Unordered(D!Shown(Page_(job).evs))
\* is the output of a successful run complete?
Complete(job, o) ==
  CASE job.cmd = "dump_tokens" -> LET i == Listed(job.text, Lexed(job).toks, 1, o.out, 0) IN
                                  IF i = 0 THEN Yes_ ELSE No_("token " \o ToString(i) \o " in the list of tokens")
    [] job.cmd = "html" -> IF Same(job, IF job.sink = "file" THEN o.file ELSE o.out) THEN Yes_ ELSE No_("the complete page")
    [] job.cmd = "dump_ast" ->
         IF (IF job.suffix = "bms" THEN ScriptDump(Parsed(job).n, o.out) ELSE DocDump(Doc_(job).n, o.out)) THEN Yes_ ELSE No_("the complete tree")
    [] job.cmd = "generate" /\ ~Annotated(job) ->
         LET g == [stage |-> "ok", text |-> o.out] IN
         IF Target(job) = "bms" THEN Script(job.text, g)
         ELSE LET p == Parsed(job).n IN InC(p, Compile(p).S, Plain(job), g)
    [] OTHER -> IF o.out # <<>> THEN Yes_ ELSE No_("output")
Says(o) == \E i \in 1..Len(o.out) : ~IsSpace(o.out[i])
Complains(o) == Says(o) \/ \E i \in 1..Len(o.err) : ~IsSpace(o.err[i])
InternalNotice == Codes("This is an internal error")
RECURSIVE Contains(_, _, _)
Contains(s, p, w) == IF p + Len(w) > Len(s) THEN FALSE ELSE IF Starts(s, p, w) THEN TRUE ELSE Contains(s, p + 1, w)
Verdict(job, o) ==
  LET g == Good(job)
      w == IF job.args < 2 \/ (job.cmd = "generate" /\ job.args < 3) THEN [status |-> "failure"]
           ELSE C!Run_(C!Start_, C!Stages(job.cmd, job.suffix), g.set)
  IN IF g.skip THEN Yes_
     ELSE IF w.status = "success" THEN (IF o.rc # 0 THEN No_("success") ELSE Complete(job, o))
     ELSE IF o.rc <= 0 \/ o.rc > 127 THEN No_("a failing status")
     ELSE IF ~Complains(o) /\ job.sink # "full" THEN No_("a message")
     ELSE IF job.cmd \in {"verify", "dump_tokens", "dump_ast", "html"} /\ Contains(o.out, 0, InternalNotice) THEN No_("a message about the input, not the program")
     ELSE Yes_
Init == l = 1 /\ bad = 0
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Verdict(Trace[l].job, Trace[l].obs) IN
           IF v.ok THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT("BAD " \o ToString(l) \o " " \o v.what)
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
