------------------------------- MODULE Html --------------------------------
(* The HTML writer as a state machine.  Texts are sequences of byte values.    *)
(* A state is [mode, ind, stk, uq]:                                            *)
(*   mode  initial | attributes | normal | newline: what may be written next   *)
(*   ind   the number of open elements of style block                          *)
(*   stk   the open elements <<[id, st]>>, innermost last                      *)
(*   tag   the element whose attributes are being written                      *)
(*   uq    was the last attribute value written without quotes?                *)
(* Step says what an operation writes, what it returns and where it leads; an  *)
(* operation that is not permitted writes nothing and changes nothing.         *)
EXTENDS Lex
LOCAL INSTANCE SequencesExt

Flat(ss) == FlattenSeq(ss)
Times(c, n) == [i \in 1..n |-> c]

IsHtmlIdChar(c) == IsIdChar(c) \/ c = 45
IsHtmlId(t) == t # <<>> /\ ~IsDigit(t[1]) /\ \A i \in 1..Len(t) : IsHtmlIdChar(t[i])
Has(t, part) == \E i \in 0..(Len(t) - Len(part)) : SubSeq(t, i + 1, i + Len(part)) = part
BlockLike(st) == st \in {"flat", "block"}
NeedsQuotes(v) == \E i \in 1..Len(v) : v[i] \in {34, 47, 39, 96, 61, 60, 62, 38, 32, 9, 13, 10}

LtE == Codes("&lt;")
GtE == Codes("&gt;")
AmpE == Codes("&amp;")
QuotE == Codes("&quot;")
EscText(t) == Flat([i \in 1..Len(t) |-> CASE t[i] = 60 -> LtE [] t[i] = 62 -> GtE [] t[i] = 38 -> AmpE [] OTHER -> <<t[i]>>])
EscAttr(t) == Flat([i \in 1..Len(t) |-> CASE t[i] = 34 -> QuotE [] t[i] = 38 -> AmpE [] OTHER -> <<t[i]>>])
Doctype == Codes("<!DOCTYPE html>")

Initial == [mode |-> "initial", ind |-> 0, stk |-> <<>>, tag |-> [id |-> <<>>, st |-> "pre"], uq |-> FALSE]
Content(s) == s.mode \in {"normal", "newline"}
\* what is written in front of something of style st
Lead(s, w, st) ==
  LET brk == s.mode # "newline" /\ BlockLike(st)
  IN (IF brk THEN <<10>> ELSE <<>>) \o (IF (brk \/ s.mode = "newline") /\ st # "pre" THEN Times(32, s.ind * w) ELSE <<>>)
Behind(st) == IF BlockLike(st) THEN <<10>> ELSE <<>>                 \* … and behind a tag
ModeBehind(st) == IF BlockLike(st) THEN "newline" ELSE "normal"

RECURSIVE Lines(_, _, _)      \* the lines of t[i..] ; a final line break starts no line
Lines(t, i, cur) == IF i > Len(t) THEN IF cur = <<>> /\ (t = <<>> \/ t[Len(t)] = 10) THEN <<>> ELSE <<cur>>
                    ELSE IF t[i] = 10 THEN <<cur>> \o Lines(t, i + 1, <<>>)
                    ELSE Lines(t, i + 1, Append(cur, t[i]))

No_op(s) == [ok |-> FALSE, s |-> s, out |-> <<>>, ret |-> 0]
Do_op(s, out) == [ok |-> TRUE, s |-> s, out |-> out, ret |-> 0]
Opened(s, id, st) == [s EXCEPT !.mode = ModeBehind(st), !.stk = Append(@, [id |-> id, st |-> st]),
                               !.ind = IF st = "block" THEN @ + 1 ELSE @]

Preamble(s) == IF s.mode # "initial" THEN No_op(s) ELSE Do_op([s EXCEPT !.mode = "newline"], Doctype \o <<10>>)
EmptyTag(s, w, id, st) ==
  IF ~Content(s) \/ ~IsHtmlId(id) THEN No_op(s)
  ELSE Do_op([s EXCEPT !.mode = ModeBehind(st)], Lead(s, w, st) \o <<60>> \o id \o <<47, 62>> \o Behind(st))
Comment(s, w, t, st) ==
  IF ~Content(s) \/ Has(t, <<45, 45, 62>>) THEN No_op(s)
  ELSE Do_op([s EXCEPT !.mode = ModeBehind(st)], Lead(s, w, st) \o <<60, 33, 45, 45>> \o t \o <<45, 45, 62>> \o Behind(st))
Begin(s, w, id, st) ==
  IF ~Content(s) \/ ~IsHtmlId(id) THEN No_op(s)
  ELSE Do_op(Opened(s, id, st), Lead(s, w, st) \o <<60>> \o id \o <<62>> \o Behind(st))
BeginAttr(s, w, id, st) ==
  IF ~Content(s) \/ ~IsHtmlId(id) THEN No_op(s)
  ELSE Do_op([s EXCEPT !.mode = "attributes", !.tag = [id |-> id, st |-> st], !.uq = FALSE], Lead(s, w, st) \o <<60>> \o id)
Attr(s, key, v) ==
  IF s.mode # "attributes" \/ ~IsHtmlId(key) THEN No_op(s)
  ELSE LET q == NeedsQuotes(v) IN
       Do_op([s EXCEPT !.uq = v # <<>> /\ ~q],
             <<32>> \o key \o (CASE v = <<>> -> <<>> [] q -> <<61, 34>> \o EscAttr(v) \o <<34>> [] OTHER -> <<61>> \o v))
EndAttr(s) ==
  IF s.mode # "attributes" THEN No_op(s)
  ELSE Do_op(Opened(s, s.tag.id, s.tag.st), <<62>> \o Behind(s.tag.st))
EndEmpty(s) ==      \* the slash must not become a part of a value without quotes
  IF s.mode # "attributes" THEN No_op(s)
  ELSE Do_op([s EXCEPT !.mode = ModeBehind(s.tag.st)], (IF s.uq THEN <<32>> ELSE <<>>) \o <<47, 62>> \o Behind(s.tag.st))
\* the innermost open element is closed; closing another one is the caller's mistake and not looked at here
End(s, w, id, st) ==
  IF ~Content(s) \/ ~IsHtmlId(id) \/ s.stk = <<>> THEN No_op(s)
  ELSE LET s1 == [s EXCEPT !.ind = IF st = "block" THEN @ - 1 ELSE @, !.stk = SubSeq(@, 1, Len(@) - 1)]
       IN Do_op([s1 EXCEPT !.mode = ModeBehind(st)], Lead(s1, w, st) \o <<60, 47>> \o id \o <<62>> \o Behind(st))
RECURSIVE TextLines(_, _, _, _, _, _)
TextLines(s, w, ls, i, st, final) ==
  IF i > Len(ls) THEN [s |-> s, out |-> <<>>]
  ELSE LET brk == i < Len(ls) \/ final
           rest == TextLines([s EXCEPT !.mode = IF brk THEN "newline" ELSE "normal"], w, ls, i + 1, st, final)
       IN [s |-> rest.s, out |-> Lead(s, w, st) \o EscText(ls[i]) \o (IF brk THEN <<10>> ELSE <<>>) \o rest.out]
Text(s, w, t, st) ==
  IF ~Content(s) THEN No_op(s)
  ELSE IF st = "pre" THEN [Do_op([s EXCEPT !.mode = "normal"], EscText(t)) EXCEPT !.ret = 1]
  ELSE LET ls == Lines(t, 1, <<>>)
           r == TextLines(s, w, ls, 1, st, t # <<>> /\ t[Len(t)] = 10)
       IN [Do_op(r.s, r.out) EXCEPT !.ret = Len(ls)]
White(s, c, n) == IF ~Content(s) \/ ~IsSpace(c) THEN No_op(s) ELSE Do_op([s EXCEPT !.mode = "normal"], Times(c, n))
\* the space between two spans [b, n, l, c] of a source; in front of the first there is no second
Gap(s, f, g, st) ==
  IF ~Content(s) \/ f.l > g.l \/ (f.l = g.l /\ f.c > g.c) THEN No_op(s)
  ELSE Do_op(s, IF st = "pre" THEN IF f.l # g.l THEN Times(10, g.l - f.l) \o Times(32, g.c)
                                   ELSE IF f.c # g.c THEN Times(32, g.c - (f.c + f.n)) ELSE <<>>
                ELSE IF f.b + f.n # g.b THEN <<32>> ELSE <<>>)
IsDone(s) == Content(s) /\ s.stk = <<>>

Step(s, w, o) ==
  CASE o.o = "preamble" -> Preamble(s)
    [] o.o = "empty" -> EmptyTag(s, w, o.id, o.st)
    [] o.o = "comment" -> Comment(s, w, o.t, o.st)
    [] o.o = "begin" -> Begin(s, w, o.id, o.st)
    [] o.o = "beginattr" -> BeginAttr(s, w, o.id, o.st)
    [] o.o = "attr" -> Attr(s, o.id, o.t)
    [] o.o = "endattr" -> EndAttr(s)
    [] o.o = "endempty" -> EndEmpty(s)
    [] o.o = "end" -> End(s, w, o.id, o.st)
    [] o.o = "text" -> Text(s, w, o.t, o.st)
    [] o.o = "white" -> White(s, o.c, o.n)
    [] o.o = "gap" -> Gap(s, o.f, o.g, o.st)

------------------------------------------------------------------------------
(* A reader of HTML that knows nothing of the writer: a fold over the bytes.   *)
(* It yields events [k, id, at, t]: k is doctype, comment, open, close, empty  *)
(* or text; at the attributes <<key, value>>; t the text (entities resolved).  *)
Ev(k, id, at, t) == [k |-> k, id |-> id, at |-> at, t |-> t]
Reading == [m |-> "t", buf |-> <<>>, id |-> <<>>, key |-> <<>>, at |-> <<>>, ent |-> <<>>, back |-> "t", evs |-> <<>>, ok |-> TRUE]
Flush(r) == IF r.buf = <<>> THEN r.evs ELSE Append(r.evs, Ev("text", <<>>, <<>>, r.buf))
Wrong(r) == [r EXCEPT !.ok = FALSE]
Entity(e) == CASE e = <<108, 116>> -> 60 [] e = <<103, 116>> -> 62 [] e = <<97, 109, 112>> -> 38
               [] e = <<113, 117, 111, 116>> -> 34 [] OTHER -> -1
Tagged(r, k, id) == [r EXCEPT !.m = "t", !.buf = <<>>, !.evs = Append(@, Ev(k, id, r.at, <<>>)), !.at = <<>>]
Between(r, c) ==              \* between the attributes
  CASE IsSpace(c) -> [r EXCEPT !.m = "attrs"]
    [] c = 62 -> Tagged(r, "open", r.id)
    [] c = 47 -> [r EXCEPT !.m = "slash"]
    [] IsHtmlIdChar(c) -> [r EXCEPT !.m = "key", !.key = <<c>>]
    [] OTHER -> Wrong(r)
Attribute(r, v) == [r EXCEPT !.at = Append(@, <<r.key, v>>), !.m = "attrs", !.buf = <<>>]
ReadByte(r, c) ==
  IF ~r.ok THEN r
  ELSE CASE r.m = "t" ->
              CASE c = 60 -> [r EXCEPT !.evs = Flush(r), !.buf = <<>>, !.m = "lt"]
                [] c = 62 -> Wrong(r)
                [] c = 38 -> [r EXCEPT !.m = "ent", !.ent = <<>>, !.back = "t"]
                [] OTHER -> [r EXCEPT !.buf = Append(@, c)]
         [] r.m = "ent" -> IF c = 59 THEN IF Entity(r.ent) < 0 THEN Wrong(r)
                                          ELSE [r EXCEPT !.buf = Append(@, Entity(r.ent)), !.m = r.back]
                           ELSE IF IsLetter(c) THEN [r EXCEPT !.ent = Append(@, c)] ELSE Wrong(r)
         [] r.m = "lt" -> CASE c = 33 -> [r EXCEPT !.m = "decl"]
                            [] c = 47 -> [r EXCEPT !.m = "close", !.id = <<>>]
                            [] IsHtmlIdChar(c) /\ ~IsDigit(c) -> [r EXCEPT !.m = "tag", !.id = <<c>>]
                            [] OTHER -> Wrong(r)
         [] r.m = "decl" ->
              LET n == Len(r.buf)
                  com == n >= 2 /\ r.buf[1] = 45 /\ r.buf[2] = 45
              IN CASE c = 62 /\ ~com -> [r EXCEPT !.m = "t", !.evs = Append(@, Ev("doctype", <<>>, <<>>, r.buf)), !.buf = <<>>]
                   [] c = 62 /\ com /\ n >= 4 /\ r.buf[n] = 45 /\ r.buf[n - 1] = 45
                        -> [r EXCEPT !.m = "t", !.evs = Append(@, Ev("comment", <<>>, <<>>, SubSeq(r.buf, 3, n - 2))), !.buf = <<>>]
                   [] OTHER -> [r EXCEPT !.buf = Append(@, c)]
         [] r.m = "tag" -> IF IsHtmlIdChar(c) THEN [r EXCEPT !.id = Append(@, c)] ELSE Between(r, c)
         [] r.m = "attrs" -> Between(r, c)
         [] r.m = "key" -> IF IsHtmlIdChar(c) THEN [r EXCEPT !.key = Append(@, c)]
                           ELSE IF c = 61 THEN [r EXCEPT !.m = "val"] ELSE Between(Attribute(r, <<>>), c)
         [] r.m = "val" -> CASE c = 34 -> [r EXCEPT !.m = "quoted"]
                             [] IsSpace(c) \/ c \in {39, 96, 61, 60, 62, 38} -> Wrong(r)
                             [] OTHER -> [r EXCEPT !.m = "bare", !.buf = <<c>>]
         [] r.m = "quoted" -> CASE c = 34 -> Attribute(r, r.buf)
                                [] c = 38 -> [r EXCEPT !.m = "ent", !.ent = <<>>, !.back = "quoted"]
                                [] OTHER -> [r EXCEPT !.buf = Append(@, c)]
         [] r.m = "bare" -> CASE IsSpace(c) \/ c = 62 -> Between(Attribute(r, r.buf), c)
                              [] c \in {34, 39, 96, 61, 60, 38} -> Wrong(r)
                              [] OTHER -> [r EXCEPT !.buf = Append(@, c)]
         [] r.m = "slash" -> IF c = 62 THEN Tagged(r, "empty", r.id) ELSE Wrong(r)
         [] r.m = "close" -> CASE c = 62 -> Tagged(r, "close", r.id)
                               [] IsHtmlIdChar(c) -> [r EXCEPT !.id = Append(@, c)]
                               [] OTHER -> Wrong(r)
Read(bytes) == LET r == FoldLeft(ReadByte, Reading, bytes)
               IN [ok |-> r.ok /\ r.m = "t", evs |-> Flush(r)]

\* every element is closed, in nesting order: the elements still open, or "bad"
OpenBy(st, e) == IF ~st.ok THEN st
                 ELSE CASE e.k = "open" -> [st EXCEPT !.open = Append(@, e.id)]
                        [] e.k = "close" -> IF st.open = <<>> THEN [st EXCEPT !.ok = FALSE]
                                            ELSE IF st.open[Len(st.open)] # e.id THEN [st EXCEPT !.ok = FALSE]
                                            ELSE [st EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
                        [] OTHER -> st
Nesting(evs) == FoldLeft(OpenBy, [ok |-> TRUE, open |-> <<>>], evs)

(* The events, with white space reduced to what is shown: outside pre, a run   *)
(* of it counts as one space, and none is left next to a block-level tag.      *)
BlockTags == {Codes(s) : s \in {"html", "head", "body", "link", "p", "ul", "ol", "li", "div", "pre", "hr",
                                "h1", "h2", "h3", "h4", "h5", "h6"}}
Edge(e) == e.k \in {"doctype", "comment"} \/ (e.k # "text" /\ e.id \in BlockTags)
Squeezed(t) == FoldLeft(LAMBDA a, c : IF ~IsSpace(c) THEN Append(a, c)
                                      ELSE IF a # <<>> /\ a[Len(a)] = 32 THEN a ELSE Append(a, 32), <<>>, t)
RECURSIVE TrimL(_), TrimR(_)
TrimL(t) == IF t # <<>> /\ IsSpace(t[1]) THEN TrimL(SubSeq(t, 2, Len(t))) ELSE t
TrimR(t) == IF t # <<>> /\ IsSpace(t[Len(t)]) THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Merge(a, e) == IF e.k = "text" /\ a # <<>> /\ a[Len(a)].k = "text" THEN [a EXCEPT ![Len(a)].t = @ \o e.t]
               ELSE IF e.k = "text" /\ e.t = <<>> THEN a ELSE Append(a, e)
PreTag == Codes("pre")
Shown(evs0) ==
  LET evs == FoldLeft(Merge, <<>>, evs0)
      pre == FoldLeft(LAMBDA a, e : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)])
                        + (IF e.k = "open" /\ e.id = PreTag THEN 1 ELSE IF e.k = "close" /\ e.id = PreTag THEN -1 ELSE 0)),
                      <<>>, evs)
      one(i) == LET e == evs[i]
                    a == IF pre[i] > 0 THEN e.t ELSE Squeezed(e.t)
                    b == IF i = 1 \/ Edge(evs[IF i = 1 THEN 1 ELSE i - 1]) THEN TrimL(a) ELSE a
                    c == IF i = Len(evs) \/ Edge(evs[IF i = Len(evs) THEN i ELSE i + 1]) THEN TrimR(b) ELSE b
                IN IF e.k # "text" THEN e ELSE [e EXCEPT !.t = c]
  IN FoldLeft(Merge, <<>>, [i \in 1..Len(evs) |-> one(i)])
=============================================================================
