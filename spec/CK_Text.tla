------------------------------ MODULE CK_Text ------------------------------
(* Conformance of the front end: a record holds a text (bytes) and what the    *)
(* tokenizer and the parser answered; each step accepts one record.            *)
EXTENDS Tree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
No_(w) == [ok |-> FALSE, what |-> w]
Yes_ == [ok |-> TRUE]
RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN i ELSE IF a[i] # b[i] THEN i ELSE FirstDiff(a, b, i + 1)
Verdict(job, o) ==
  LET src == job.text
      lx == Tokenize(src)
  IN IF ~lx.ok
     THEN IF o.stage # "lex" THEN No_("a " \o lx.e \o " error at offset " \o ToString(lx.b))
          ELSE IF o.e # lx.e \/ o.b # lx.b \/ o.l # lx.l \/ o.c # lx.c
               THEN No_(ToString(lx)) ELSE Yes_
     ELSE IF o.stage = "lex" THEN No_("the text consists of tokens")
     ELSE IF "toks" \in DOMAIN o /\ o.toks # lx.toks
          THEN LET i == FirstDiff(lx.toks, o.toks, 1)
               IN No_("token " \o ToString(i) \o " is " \o (IF i <= Len(lx.toks) THEN ToString(lx.toks[i]) ELSE "the end"))
     ELSE IF job.want = "t" THEN Yes_
     ELSE LET ts == Prepare(src, lx.toks)
              p == PProgram(ts)
          IN IF ~p.ok
             THEN IF "sentence" \in DOMAIN job THEN No_("SPECIFICATION refuses a sentence of the grammar")
                  ELSE IF o.stage # "parse" THEN No_("a syntax error at token " \o ToString(p.i))
                  ELSE IF p.i <= Len(ts)
                       THEN IF o.b # ts[p.i].b \/ o.l # ts[p.i].l
                            THEN No_("the syntax error is at offset " \o ToString(ts[p.i].b) \o ", line " \o ToString(ts[p.i].l)) ELSE Yes_
                  ELSE IF o.b < EndOfTokens(lx.toks) \/ o.b > Len(src) \/ o.l # LineAt(src, o.b) \/ o.n # 0
                       THEN No_("the syntax error is at the end, offset " \o ToString(EndOfTokens(lx.toks))) ELSE Yes_
             ELSE IF o.stage = "parse" THEN No_("the text follows the grammar")
             ELSE IF "tree" \in DOMAIN o /\ o.tree # ShowProgram(p.n) THEN No_(ShowProgram(p.n))
             ELSE Yes_
Init == l = 1 /\ bad = 0
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET v == Verdict(Trace[l].job, Trace[l].obs) IN
           IF v.ok THEN bad' = bad ELSE bad' = bad + 1 /\ PrintT("BAD " \o ToString(l) \o " " \o v.what)
Spec == Init /\ [][Step]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
