-------------------------------- MODULE Doc --------------------------------
(* Markup documents: their syntax (a document is read into a tree, or refused  *)
(* with a code and an offset), and the page that a tree is rendered to (the    *)
(* events that a reader of the page sees, or an error).                        *)
(* Trees:  [k |-> "text", b, n, t]         b, n: begin and length in the source *)
(*         [k |-> "dir", b, n, id, args, block]   args: <<[key, t, num, b, v]>> *)
(*         [k |-> "list", c]               [k |-> "none"]                        *)
EXTENDS Html
LOCAL INSTANCE SequencesExt
Big == INSTANCE BigInt WITH LimbBits <- 12

------------------------------------------------------------------------------
\* The directives: enumerator, where they may stand, what their block holds, and the tag they become
D(name, env, content, tag) == [name |-> name, env |-> env, content |-> content, tag |-> Codes(tag)]
Directives == [
  b |-> D("bold", "paragraph", "span", "b"),              br |-> D("line_break", "paragraph", "nothing", "br"),
  del |-> D("deleted", "paragraph", "span", "del"),       i |-> D("italic", "paragraph", "span", "i"),
  kbd |-> D("keyboard", "paragraph", "span", "kbd"),      q |-> D("quoted", "paragraph", "span", "q"),
  s |-> D("strikethrough", "paragraph", "span", "s"),     sub |-> D("subscript", "paragraph", "span", "sub"),
  sup |-> D("superscript", "paragraph", "span", "sup"),   tt |-> D("teletype", "paragraph", "span", "tt"),
  u |-> D("underlined", "paragraph", "span", "u"),        c |-> D("code", "paragraph", "raw", "code"),
  instruction |-> D("instruction", "paragraph", "text", ""),
  h1 |-> D("heading1", "content", "span", "h1"),          h2 |-> D("heading2", "content", "span", "h2"),
  h3 |-> D("heading3", "content", "span", "h3"),          h4 |-> D("heading4", "content", "span", "h4"),
  h5 |-> D("heading5", "content", "span", "h5"),          h6 |-> D("heading6", "content", "span", "h6"),
  hr |-> D("horizontal_rule", "content", "nothing", "hr"), codeblock |-> D("code_block", "content", "raw", "pre"),
  ol |-> D("ordered_list", "content", "list", "ol"),      ul |-> D("unordered_list", "content", "list", "ul"),
  note |-> D("note", "content", "block", "div"),          meta |-> D("meta", "content", "meta", ""),
  item |-> D("item", "list", "span", "li"),               title |-> D("title", "meta", "text", "h1"),
  bmsfun |-> D("bms_function", "meta", "text", ""),       cequiv |-> D("c_equivalent", "meta", "text", "")]
\* may something of environment env stand in content of kind ctx?
Allowed(env, ctx) == CASE ctx = "span" -> env = "paragraph" [] ctx = "block" -> env \in {"paragraph", "content"}
                       [] ctx = "meta" -> env = "meta" [] ctx = "list" -> env = "list"

------------------------------------------------------------------------------
\* Reading.  src is the text up to where the surrounding block ends, p an offset.
Bad(e, p) == [ok |-> FALSE, e |-> e, p |-> p]
None == [k |-> "none"]
Escapable(c) == c \in {92, 123, 125}
StartsDirective(src, p) == At(src, p) = 92 /\ ~Escapable(At(src, p + 1))
StartsComment(src, p) == At(src, p) = 47 /\ At(src, p + 1) \in {42, 47}

\* white space and comments; a paragraph break if they include an empty line
RECURSIVE Blank_(_, _, _, _), Blank_B(_, _, _, _), Blank_F
Blank_F == [a \in Any |-> Blank_B(a[1], a[2], a[3], a[4])]
Blank_(src, p, nl, brk) == Blank_F[<<src, p, nl, brk>>]
Blank_B(src, p, nl, brk) ==
  IF At(src, p) = 47 /\ At(src, p + 1) = 47
  THEN LET q == EndOfLine(src, p + 2) IN IF q < Len(src) THEN Blank_(src, q + 1, 1, brk) ELSE Blank_(src, q, 0, brk)
  ELSE IF At(src, p) = 47 /\ At(src, p + 1) = 42
  THEN LET q == EndOfBlock(src, p + 2) IN IF q < 0 THEN Bad("unterminated_comment", Len(src)) ELSE Blank_(src, q, 0, brk)
  ELSE IF p < Len(src) /\ IsSpace(src[p + 1])
  THEN IF src[p + 1] = 10 THEN Blank_(src, p + 1, nl + 1, brk \/ nl >= 1) ELSE Blank_(src, p + 1, nl, brk)
  ELSE [ok |-> TRUE, p |-> p, brk |-> brk]
Blank(src, p) == Blank_(src, p, 0, FALSE)
\* … which must not break the paragraph, otherwise nothing is skipped
Inline(src, p) == LET r == Blank(src, p) IN IF r.ok /\ r.brk THEN [r EXCEPT !.p = p] ELSE r

\* the end of the text at p: in front of directives, comments and paragraph breaks, and without white space behind it
RECURSIVE TextEnd_(_, _, _, _), TextEnd_B(_, _, _, _), TextEnd_F
TextEnd_F == [a \in Any |-> TextEnd_B(a[1], a[2], a[3], a[4])]
TextEnd_(src, p, final, nl) == TextEnd_F[<<src, p, final, nl>>]
TextEnd_B(src, p, final, nl) ==
  IF p >= Len(src) \/ StartsDirective(src, p) \/ StartsComment(src, p) THEN final
  ELSE LET c == src[p + 1] IN
       CASE c = 10 /\ nl -> final
         [] IsSpace(c) -> TextEnd_(src, p + 1, final, nl \/ c = 10)
         [] c = 92 -> TextEnd_(src, p + 2, p + 2, FALSE)
         [] OTHER -> TextEnd_(src, p + 1, p + 1, FALSE)
TextEnd(src, p) == TextEnd_(src, p, p, FALSE)
TextNode(b, n, t) == [k |-> "text", b |-> b, n |-> n, t |-> t]
Cut(src, p, q) == SubSeq(src, p + 1, q)

\* the offset of the brace that closes the block whose content starts at p
RECURSIVE Close_(_, _, _), Close_B(_, _, _), Close_F
Close_F == [a \in Any |-> Close_B(a[1], a[2], a[3])]
Close_(src, p, level) == Close_F[<<src, p, level>>]
Close_B(src, p, level) ==
  IF p >= Len(src) THEN Bad("unexpected_eof", Len(src))
  ELSE LET c == src[p + 1]
           d == At(src, p + 1)
       IN CASE c = 125 -> IF level = 0 THEN [ok |-> TRUE, p |-> p] ELSE Close_(src, p + 1, level - 1)
            [] c = 92 /\ Escapable(d) -> Close_(src, p + 2, level)
            [] c = 123 -> Close_(src, p + 1, level + 1)
            [] c = 47 /\ d = 47 -> LET q == EndOfLine(src, p + 2)
                                   IN IF q < Len(src) THEN Close_(src, q + 1, level) ELSE Bad("unterminated_comment", Len(src))
            [] c = 47 /\ d = 42 -> LET q == EndOfBlock(src, p + 2)
                                   IN IF q < 0 THEN Bad("unterminated_comment", Len(src)) ELSE Close_(src, q, level)
            [] OTHER -> Close_(src, p + 1, level)

Identifier(src, p) == IF p >= Len(src) THEN Bad("unexpected_eof", p)
                      ELSE IF ~IsIdStart(src[p + 1]) THEN Bad("unexpected_character", p)
                      ELSE [ok |-> TRUE, p |-> EndOfId(src, p)]
Expect(src, p, c) == IF p >= Len(src) THEN Bad("unexpected_eof", p)
                     ELSE IF src[p + 1] # c THEN Bad("unexpected_character", p) ELSE [ok |-> TRUE, p |-> p + 1]

RECURSIVE Digits(_, _, _, _)
DigitOf(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Digits(t, i, base, acc) == IF i > Len(t) THEN acc
                           ELSE Digits(t, i + 1, base, Big!NAdd(Big!NMul(acc, Big!NFromNat(base)), Big!NFromNat(DigitOf(t[i]))))
RECURSIVE Decimal(_)
Decimal(v) == IF v = <<>> THEN <<>> ELSE LET d == Big!NDivMod(v, Big!NFromNat(10)) IN Append(Decimal(d.q), 48 + Big!NToNat(d.r))
\* a number: its value as decimal digits
Number(src, p) ==
  LET m == Match(src, p) IN
  IF m[1] = "!" THEN Bad(IF m[2] = "integer_suffix" THEN "integer_suffix" ELSE "invalid_integer_literal", p + m[3])
  ELSE LET base == CASE m[1] = "binary_literal" -> 2 [] m[1] = "hexadecimal_literal" -> 16 [] m[1] = "octal_literal" -> 8 [] OTHER -> 10
           v == Digits(Cut(src, IF base \in {2, 16} THEN p + 2 ELSE p, m[2]), 1, base, <<>>)
       IN IF Big!NCmp(v, Big!NPow2(63)) >= 0 THEN Bad("invalid_integer_literal", p)
          ELSE [ok |-> TRUE, p |-> m[2], t |-> m[1], v |-> IF v = <<>> THEN <<48>> ELSE Decimal(v)]

RECURSIVE Args_(_, _, _)            \* behind "[" or ","
Args_(src, p, acc) ==
  LET b1 == Inline(src, p) IN IF ~b1.ok THEN b1 ELSE
  LET id == Identifier(src, b1.p) IN IF ~id.ok THEN id ELSE
  LET b2 == Inline(src, id.p) IN IF ~b2.ok THEN b2 ELSE
  LET eq == Expect(src, b2.p, 61) IN IF ~eq.ok THEN eq ELSE
  LET b3 == Inline(src, eq.p) IN IF ~b3.ok THEN b3 ELSE
  LET num == IsDigit(At(src, b3.p))
      v == IF num THEN Number(src, b3.p) ELSE Identifier(src, b3.p)
  IN IF ~v.ok THEN v ELSE
  LET key == Cut(src, b1.p, id.p)
      arg == [key |-> key, num |-> num, b |-> b3.p, t |-> IF num THEN v.t ELSE "identifier",
              v |-> IF num THEN v.v ELSE Cut(src, b3.p, v.p)]
  IN IF \E i \in 1..Len(acc) : acc[i].key = key THEN Bad("duplicate_argument", b1.p) ELSE
  LET b4 == Inline(src, v.p) IN IF ~b4.ok THEN b4 ELSE
  IF b4.p >= Len(src) THEN Bad("unexpected_eof", b4.p)
  ELSE IF src[b4.p + 1] = 44 THEN Args_(src, b4.p + 1, Append(acc, arg))
  ELSE LET c == Expect(src, b4.p, 93) IN IF ~c.ok THEN c ELSE [ok |-> TRUE, p |-> c.p, args |-> Append(acc, arg)]

\* text up to a directive or paragraph break; comments in it count as a space
RECURSIVE Span_(_, _, _, _, _)
Span_(src, p, b, text, end) ==
  LET q == TextEnd(src, p) IN
  IF q = p THEN [ok |-> TRUE, p |-> p, n |-> IF text = <<>> THEN None ELSE TextNode(b, end - b, text)]
  ELSE LET t == IF text = <<>> THEN Cut(src, p, q) ELSE text \o <<32>> \o Cut(src, p, q)
           w == Inline(src, q)
       IN IF ~w.ok THEN w
          ELSE IF w.p = q THEN [ok |-> TRUE, p |-> q, n |-> TextNode(b, q - b, t)] ELSE Span_(src, w.p, b, t, q)

RECURSIVE Directive(_, _, _), DirectiveB(_, _, _), DirectiveF, Block(_, _, _),
          Content_(_, _, _, _), Content_B(_, _, _, _), Content_F, Paragraph(_, _, _), ParagraphB(_, _, _), ParagraphF,
          Inner(_, _, _, _), InnerB(_, _, _, _), InnerF
DirectiveF == [a \in Any |-> DirectiveB(a[1], a[2], a[3])]
Directive(src, p, ctx) == DirectiveF[<<src, p, ctx>>]
DirectiveB(src, p, ctx) ==
  LET id == Identifier(src, p + 1) IN IF ~id.ok THEN id ELSE
  LET w == Word(src, p + 1, id.p) IN
  IF w \notin DOMAIN Directives THEN Bad("invalid_directive", p + 1)
  ELSE IF ~Allowed(Directives[w].env, ctx) THEN Bad("directive_not_allowed", id.p)
  ELSE LET as == IF At(src, id.p) = 91 THEN Args_(src, id.p + 1, <<>>) ELSE [ok |-> TRUE, p |-> id.p, args |-> <<>>]
       IN IF ~as.ok THEN as ELSE
  LET bl == IF At(src, as.p) = 123 THEN Block(src, as.p, Directives[w].content) ELSE [ok |-> TRUE, p |-> as.p, n |-> None]
  IN IF ~bl.ok THEN bl
     ELSE [ok |-> TRUE, p |-> bl.p, n |-> [k |-> "dir", b |-> p, n |-> bl.p - p, id |-> w, args |-> as.args, block |-> bl.n]]

\* the block whose opening brace is at p
Block(src, p, content) ==
  IF content = "nothing"
  THEN LET w == Blank(src, p + 1) IN
       IF ~w.ok THEN w
       ELSE IF At(src, w.p) # 125 THEN Bad("directive_must_be_empty", w.p) ELSE [ok |-> TRUE, p |-> w.p + 1, n |-> None]
  ELSE LET c == Close_(src, p + 1, 0) IN IF ~c.ok THEN c
  ELSE IF content = "raw"
  THEN [ok |-> TRUE, p |-> c.p + 1, n |-> IF c.p = p + 1 THEN None ELSE TextNode(p + 1, c.p - p - 1, Cut(src, p + 1, c.p))]
  ELSE LET in == Cut(src, 0, c.p)
           w == Blank(in, p + 1)
           r == CASE ~w.ok -> w
                  [] content \in {"span", "text"} /\ w.brk -> Bad("paragraph_break_in_span", w.p)
                  [] content = "span" -> Paragraph(in, w.p, <<>>)
                  [] content = "text" -> LET s == Span_(in, w.p, w.p, <<>>, w.p)
                                         IN IF s.ok /\ StartsDirective(in, s.p) THEN Bad("directive_in_text_span", s.p) ELSE s
                  [] content = "block" -> Content_(in, w.p, <<>>, <<>>)
                  [] OTHER -> Inner(in, w.p, content, <<>>)
       IN IF ~r.ok THEN r
          ELSE IF r.p < Len(in) THEN Bad("paragraph_break_in_span", r.p) ELSE [ok |-> TRUE, p |-> c.p + 1, n |-> r.n]

\* one paragraph of text and directives
ParagraphF == [a \in Any |-> ParagraphB(a[1], a[2], a[3])]
Paragraph(src, p, acc) == ParagraphF[<<src, p, acc>>]
ParagraphB(src, p, acc) ==
  IF p >= Len(src) THEN [ok |-> TRUE, p |-> p, n |-> [k |-> "list", c |-> acc]]
  ELSE IF IsSpace(src[p + 1]) \/ StartsComment(src, p)
  THEN LET w == Inline(src, p) IN IF ~w.ok THEN w
       ELSE IF w.p = p THEN [ok |-> TRUE, p |-> p, n |-> [k |-> "list", c |-> acc]] ELSE Paragraph(src, w.p, acc)
  ELSE LET q == TextEnd(src, p) IN
       IF q > p THEN Paragraph(src, q, Append(acc, TextNode(p, q - p, Cut(src, p, q))))
       ELSE LET d == Directive(src, p, "span") IN IF ~d.ok THEN d ELSE Paragraph(src, d.p, Append(acc, d.n))

\* directives only
InnerF == [a \in Any |-> InnerB(a[1], a[2], a[3], a[4])]
Inner(src, p, ctx, acc) == InnerF[<<src, p, ctx, acc>>]
InnerB(src, p, ctx, acc) ==
  IF p >= Len(src) THEN [ok |-> TRUE, p |-> p, n |-> [k |-> "list", c |-> acc]]
  ELSE IF ~StartsDirective(src, p) THEN Bad("text_in_directive_list", p)
  ELSE LET d == Directive(src, p, ctx) IN IF ~d.ok THEN d
       ELSE LET w == Blank(src, d.p) IN IF ~w.ok THEN w ELSE Inner(src, w.p, ctx, Append(acc, d.n))

\* paragraphs (lists) and directives that stand on their own; para holds the current paragraph
Ended(els, para) == IF para = <<>> THEN els ELSE Append(els, [k |-> "list", c |-> para])
Content_F == [a \in Any |-> Content_B(a[1], a[2], a[3], a[4])]
Content_(src, p, els, para) == Content_F[<<src, p, els, para>>]
Content_B(src, p, els, para) ==
  IF p >= Len(src) THEN [ok |-> TRUE, p |-> p, n |-> [k |-> "list", c |-> Ended(els, para)]]
  ELSE LET dir == StartsDirective(src, p)
           q == TextEnd(src, p)
           x == IF dir THEN Directive(src, p, "block") ELSE [ok |-> TRUE, p |-> q, n |-> TextNode(p, q - p, Cut(src, p, q))]
       IN IF ~x.ok THEN x ELSE
  LET alone == dir /\ Directives[x.n.id].env = "content"
      e1 == IF alone THEN Append(Ended(els, para), x.n) ELSE els
      p1 == IF alone THEN <<>> ELSE Append(para, x.n)
      w == Blank(src, x.p)
  IN IF ~w.ok THEN w
     ELSE IF w.brk THEN Content_(src, w.p, Ended(e1, p1), <<>>) ELSE Content_(src, w.p, e1, p1)

Document(src) == LET w == Blank(src, 0) IN
                 IF ~w.ok THEN w ELSE IF w.p >= Len(src) THEN [ok |-> TRUE, p |-> w.p, n |-> None] ELSE Content_(src, w.p, <<>>, <<>>)

\* line and column of an offset
PosOf(src, p) == FoldLeft(LAMBDA a, c : Advance1(a, c), Start, Cut(src, 0, p))

\* a tree as numbers, to compare it with a recorded one
Name(s) == LET c == Codes(s) IN <<Len(c)>> \o c
RECURSIVE Nums(_, _), NumsF
NumsF == [a \in Any |-> LET n == a[2]
                            at == PosOf(a[1], n.b)
                        IN CASE n.k = "none" -> <<0>>
                             [] n.k = "list" -> <<3, Len(n.c)>> \o Flat([i \in 1..Len(n.c) |-> Nums(a[1], n.c[i])])
                             [] n.k = "text" -> <<1, n.b, n.n, at.line, at.col, Len(n.t)>> \o n.t
                             [] n.k = "dir" -> <<2, n.b, n.n, at.line, at.col>> \o Name(Directives[n.id].name) \o Name(n.id) \o <<Len(n.args)>>
                                  \o Flat([i \in 1..Len(n.args) |-> <<Len(n.args[i].key)>> \o n.args[i].key \o Name(n.args[i].t)
                                                                    \o <<Len(n.args[i].v)>> \o n.args[i].v])
                                  \o Nums(a[1], n.block)]
Nums(src, n) == NumsF[<<src, n>>]

------------------------------------------------------------------------------
\* Rendering: events (see Html), or an error
Page(evs) == [ok |-> TRUE, evs |-> evs]
TextEv(t) == Ev("text", <<>>, <<>>, t)
OpenEv(tag) == Ev("open", tag, <<>>, <<>>)
CloseEv(tag) == Ev("close", tag, <<>>, <<>>)
Wrap(tag, r) == IF ~r.ok THEN r ELSE Page(<<OpenEv(tag)>> \o r.evs \o <<CloseEv(tag)>>)
RECURSIVE Unescape_(_, _, _)
Unescape_(t, i, acc) == IF i > Len(t) THEN acc
                        ELSE IF t[i] = 92 /\ i < Len(t) /\ Escapable(t[i + 1]) THEN Unescape_(t, i + 2, Append(acc, t[i + 1]))
                        ELSE Unescape_(t, i + 1, Append(acc, t[i]))
Unescape(t) == Unescape_(t, 1, <<>>)
Attrs(args) == [i \in 1..Len(args) |-> <<args[i].key, args[i].v>>]
Arg(args, key) == LET s == {i \in 1..Len(args) : args[i].key = Codes(key)} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE

\* the kinds of tokens
TokenTag(t) ==
  CASE t = "identifier" -> "c-idn"
    [] t \in {"left_parenthesis", "right_parenthesis", "left_brace", "right_brace"} -> "c-bra"
    [] t \in {"binary_literal", "octal_literal", "decimal_literal", "hexadecimal_literal"} -> "c-int"
    [] t = "string_literal" -> "c-str"
    [] t \in {"line_comment", "block_comment"} -> "c-com"
    [] t \in {"at", "dot", "colon", "comma", "semicolon", "right_arrow"} -> "c-pun"
    [] t = "double_right_arrow" -> "c-err"
    [] t \in {"keyword_true", "keyword_false"} -> "c-bol"
    [] t \in {"keyword_uint", "keyword_int", "keyword_bool", "keyword_void"} -> "c-typ"
    [] t \in {Keywords[w] : w \in DOMAIN Keywords} -> "c-key"
    [] OTHER -> "c-opr"
\* code: each token in the element of its kind, and between the tokens what stands between them
Code(src, toks) ==
  Flat([i \in 1..Len(toks) |->
    LET t == toks[i]
        gap == IF i = 1 THEN <<>> ELSE Cut(src, toks[i - 1].b + toks[i - 1].n, t.b)
        tag == Codes(TokenTag(t.t))
    IN <<TextEv(gap), OpenEv(tag), TextEv(Cut(src, t.b, t.b + t.n)), CloseEv(tag)>>])

Languages == {"bms", "bmd", "c", "cpp", "cxx", "plain", "plaintext", "text", "raw", "rust"}
Linked == {"x86", "x86_64"}
Architectures == Linked \cup {"arm", "risc_v", "power", "power_pc", "sparc", "mips", "ibm_z"}
\* the value of an attribute that takes one of the given names
Choice(args, key, names, default, code) ==
  LET i == Arg(args, key) IN
  IF i = 0 THEN [ok |-> TRUE, v |-> default]
  ELSE IF args[i].num THEN Bad("number_attribute_not_allowed", args[i].b)
  ELSE LET w == Word(args[i].v, 0, Len(args[i].v)) IN IF w \in names THEN [ok |-> TRUE, v |-> w] ELSE Bad(code, args[i].b)

RECURSIVE Render(_), RenderB(_), RenderF, RenderAll(_, _), RenderList(_, _), RenderBlock(_, _)
RenderF == [a \in Any |-> RenderB(a[1])]
Render(n) == RenderF[<<n>>]
\* paragraphs and directives one after another
RenderAll(ns, i) ==
  IF i > Len(ns) THEN Page(<<>>)
  ELSE LET a == CASE ns[i].k = "list" -> Wrap(Codes("p"), RenderList(ns[i].c, 1))
                  [] ns[i].k = "dir" -> IF ns[i].id = "meta" /\ i > 1 THEN Bad("meta_not_at_start_of_file", ns[i].b) ELSE Render(ns[i])
           r == IF a.ok THEN RenderAll(ns, i + 1) ELSE a
       IN IF ~a.ok THEN a ELSE IF ~r.ok THEN r ELSE Page(a.evs \o r.evs)
\* text and directives one after another; a space wherever the source has anything between them
RenderList(ns, i) ==
  IF i > Len(ns) THEN Page(<<>>)
  ELSE LET gap == i > 1 /\ ns[i - 1].b + ns[i - 1].n # ns[i].b
           a == IF ns[i].k = "text" THEN Page(<<TextEv(Unescape(ns[i].t))>>) ELSE Render(ns[i])
           r == IF a.ok THEN RenderList(ns, i + 1) ELSE a
       IN IF ~a.ok THEN a ELSE IF ~r.ok THEN r ELSE Page((IF gap THEN <<TextEv(<<32>>)>> ELSE <<>>) \o a.evs \o r.evs)
RenderBlock(b, content) ==
  CASE b.k = "none" -> Page(<<>>)
    [] b.k = "text" -> Page(<<TextEv(Unescape(b.t))>>)
    [] content = "block" -> IF b.c # <<>> /\ b.c[1].k = "dir" /\ b.c[1].id = "meta" THEN Bad("meta_not_at_start_of_file", b.c[1].b) ELSE RenderAll(b.c, 1)
    [] OTHER -> RenderList(b.c, 1)
\* an element with the arguments as its attributes; without a block it is an empty one
Element(tag, args, block, r) ==
  IF ~r.ok THEN r
  ELSE IF block.k = "none" /\ args # <<>> THEN Page(<<Ev("empty", tag, Attrs(args), <<>>)>>)
  ELSE Page(<<Ev("open", tag, Attrs(args), <<>>)>> \o r.evs \o <<CloseEv(tag)>>)
RenderMeta(d) ==
  LET titles == SelectSeq(IF d.block.k = "list" THEN d.block.c ELSE <<>>, LAMBDA x : x.id = "title") IN
  CASE titles = <<>> -> Page(<<>>)
    [] Len(titles) > 1 -> Bad("duplicate_meta_entry", titles[2].b)
    [] OTHER -> Element(Codes("h1"), titles[1].args, titles[1].block, RenderBlock(titles[1].block, "text"))
RenderCode(d) ==
  LET lang == Choice(d.args, "lang", Languages, "bms", "invalid_language")
      t == IF d.block.k = "none" THEN <<>> ELSE d.block.t
      lx == Tokenize(t)
  IN CASE ~lang.ok -> lang
       [] lang.v # "bms" -> Wrap(Directives[d.id].tag, Page(<<TextEv(t)>>))
       [] ~lx.ok -> Bad("code_tokenization_failure", d.block.b)
       [] OTHER -> Wrap(Directives[d.id].tag, Page(Code(t, lx.toks)))
RenderInstruction(d) ==
  LET arch == Choice(d.args, "arch", Architectures, "x86", "invalid_architecture")
      i == Arg(d.args, "ext")
      t == IF d.block.k = "none" THEN <<>> ELSE Unescape(d.block.t)
      code == Wrap(Codes("code"), Page(<<TextEv(t)>>)).evs
      a == Codes("a")
  IN CASE ~arch.ok -> arch
       [] i # 0 /\ d.args[IF i = 0 THEN 1 ELSE i].num -> Bad("number_attribute_not_allowed", d.b)
       [] OTHER -> Page((IF arch.v \in Linked
                         THEN <<Ev("open", a, <<<<Codes("href"), Codes("https://www.felixcloutier.com/x86/") \o t>>>>, <<>>)>> \o code \o <<CloseEv(a)>>
                         ELSE code)
                        \o (IF i = 0 THEN <<>> ELSE Wrap(Codes("sup"), Page(<<TextEv(d.args[i].v)>>)).evs))
RenderB(d) ==
  CASE d.id = "meta" -> RenderMeta(d)
    [] d.id \in {"c", "codeblock"} -> RenderCode(d)
    [] d.id = "instruction" -> RenderInstruction(d)
    [] OTHER -> LET dd == Directives[d.id] IN
                IF d.block.k = "none" /\ d.args = <<>> THEN Page(<<Ev("empty", dd.tag, <<>>, <<>>)>>)
                ELSE Element(dd.tag, d.args, d.block, RenderBlock(d.block, dd.content))
\* the whole page
Whole(n, sheets) ==
  LET body == IF n.k = "none" THEN Page(<<>>) ELSE RenderAll(n.c, 1)
      link(s) == Ev("empty", Codes("link"), <<<<Codes("rel"), Codes("stylesheet")>>, <<Codes("href"), s>>>>, <<>>)
      head == Wrap(Codes("head"), Page([i \in 1..Len(sheets) |-> link(sheets[i])]))
  IN IF ~body.ok THEN body
     ELSE Page(<<Ev("doctype", <<>>, <<>>, Codes("DOCTYPE html"))>>
               \o Wrap(Codes("html"), Page(head.evs \o Wrap(Codes("body"), body).evs)).evs)
\* attributes have no order
Unordered(evs) == [i \in 1..Len(evs) |-> [k |-> evs[i].k, id |-> evs[i].id, t |-> evs[i].t, n |-> Len(evs[i].at),
                                          at |-> {evs[i].at[j] : j \in 1..Len(evs[i].at)}]]
=============================================================================
