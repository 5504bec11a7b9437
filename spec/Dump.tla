-------------------------------- MODULE Dump --------------------------------
(* The printed syntax tree of a script or document: one line per node, indented *)
(* by its depth, with its kind.  A row is <<depth, text>>.                      *)
EXTENDS Diag, Grammar
LOCAL INSTANCE SequencesExt
Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
\* ---- what has to be printed
Row(d, s) == <<<<d, Codes(s)>>>>
Each(ns, d, F(_, _)) == Cat([i \in 1..Len(ns) |-> F(ns[i], d)])
KindOf == [const |-> "Const", let |-> "Let", function |-> "Function", param |-> "Parameter", type |-> "Type", sassert |-> "Static_Assert",
           if |-> "If_Statement", while |-> "While_Statement", break |-> "Break", continue |-> "Continue", return |-> "Return_Statement",
           assign |-> "Assignment", block |-> "Block_Statement", conv |-> "Conversion_Expression", ife |-> "If_Expression",
           bin |-> "Binary_Expression", un |-> "Prefix_Expression", call |-> "Function_Call_Expression", callst |-> "Function_Call_Expression",
           id |-> "Id_Expression", int |-> "Literal", bool |-> "Literal", ann |-> "Attribute", arg |-> "Annotation_Argument"]
RECURSIVE RowsOf(_, _), RowsOfB(_, _), RowsOfF
RowsOfF == [a \in Any |-> RowsOfB(a[1], a[2])]
RowsOf(n, d) == RowsOfF[<<n, d>>]
\* a list is a node of its own, unless it is empty
ListRows(kind, ns, d) == IF ns = <<>> THEN <<>> ELSE Row(d, kind) \o Each(ns, d + 1, RowsOf)
AnnRows(n, d) == ListRows("Attribute_List", n.ann, d)
All(ns, d) == Each(ns, d, RowsOf)
RowsOfB(n, d) ==
  LET e == d + 1
      c == IF n.k = "callst" THEN n.x ELSE n
  IN <<<<d, Codes(KindOf[n.k]) \o (CASE n.k = "id" -> Codes("(" \o n.name \o ")") [] n.k = "int" -> <<40>> \o n.v \o <<41>>
                                     [] n.k = "bool" -> Codes(IF n.v THEN "(true)" ELSE "(false)") [] OTHER -> <<>>)>>>> \o
    (CASE n.k \in {"const", "let"} -> AnnRows(n, e) \o All(n.ty \o n.init, e)
       [] n.k = "function" -> AnnRows(n, e) \o ListRows("Parameter_List", n.params, e) \o All(<<n.ret>> \o n.req \o <<n.body>>, e)
       [] n.k = "param" -> All(<<n.ty>>, e)
       [] n.k = "type" -> All(n.w, e)
       [] n.k \in {"sassert", "un"} -> All(<<n.x>>, e)
       [] n.k = "if" -> AnnRows(n, e) \o All(<<n.c, n.then>> \o n.else, e)
       [] n.k = "while" -> AnnRows(n, e) \o All(<<n.c, n.body>>, e)
       [] n.k = "assign" -> AnnRows(n, e) \o All(<<n.x>>, e)
       [] n.k = "return" -> All(n.x, e)
       [] n.k = "block" -> All(n.body, e)
       [] n.k = "conv" -> All(<<n.x, n.ty>>, e)
       [] n.k = "ife" -> All(<<n.x, n.c, n.y>>, e)
       [] n.k = "bin" -> All(<<n.x, n.y>>, e)
       [] n.k \in {"call", "callst"} -> All(c.args, e) \o AnnRows(c, e)
       [] n.k = "ann" -> All(n.args, e)
       [] OTHER -> <<>>)
ScriptRows(nodes) == Row(0, "Program") \o All(nodes, 1)
\* documents: paragraphs are lists; arguments are at the depth of their directive
RECURSIVE DocRows(_, _), DocRowsF
DocRowsF == [a \in Any |->
  LET n == a[1] d == a[2] IN
  CASE n.k = "none" -> <<>>
    [] n.k = "list" -> Row(d, "List(") \o Each(n.c, d + 1, DocRows)
    [] n.k = "text" -> Row(d, "Text(")
    [] n.k = "dir" -> <<<<d, <<92>> \o Codes(n.id) \o <<40>>>>>> \o DocRows(n.block, d + 1)]
DocRows(n, d) == DocRowsF[<<n, d>>]
RECURSIVE DocArgs(_, _), DocArgsF
DocArgsF == [a \in Any |->
  LET n == a[1] d == a[2] IN
  CASE n.k = "list" -> Each(n.c, d + 1, DocArgs)
    [] n.k = "dir" -> [i \in 1..Len(n.args) |-> <<d, n.args[i].key \o Codes(": ")>>] \o DocArgs(n.block, d + 1)
    [] OTHER -> <<>>]
DocArgs(n, d) == DocArgsF[<<n, d>>]

\* ---- what is printed: a line has its indentation, then for scripts a number and a name, then the node
RECURSIVE Skip_(_, _), After(_, _, _), PrintedRows(_, _, _), PrintedRowsB(_, _, _), PrintedRowsF
Skip_(s, p) == IF At(s, p) = 32 THEN Skip_(s, p + 1) ELSE p
\* behind the first c that comes before any other sign in [p, e), or p
After(s, p, c) == LET q == IF IsDigit(At(s, p)) THEN EndOfDigits(s, p, 10) ELSE EndOfId(s, p) IN IF At(s, q) = c THEN q + 1 ELSE p
PrintedRowsF == [a \in Any |-> PrintedRowsB(a[1], a[2], a[3])]
PrintedRows(s, p, acc) == PrintedRowsF[<<s, p, acc>>]
PrintedRowsB(s, p, acc) ==
  IF p >= Len(s) THEN acc
  ELSE LET e == EndOfLine(s, p)
           b == Skip_(s, p)
       IN PrintedRows(s, e + 1, Append(acc, <<(b - p) \div 2, Part(s, b, e)>>))
Labelled(t) == LET q == After(t, 0, 58) IN Part(t, After(t, q, 61), Len(t))
Null == Codes("null")
\* the rows of the script's tree match if each kind, and the text of names and literals, is printed
SameRows(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : want[i][1] = got[i][1] /\ Starts(got[i][2], 0, want[i][2])
ScriptDump(nodes, out) ==
  LET rows == PrintedRows(out, 0, <<>>)
      got == SelectSeq([i \in 1..Len(rows) |-> <<rows[i][1], Labelled(rows[i][2])>>], LAMBDA r : r[2] # Null)
  IN SameRows(ScriptRows(nodes), got)
IsNode(t) == At(t, 0) = 92 \/ Starts(t, 0, Codes("List(")) \/ Starts(t, 0, Codes("Text("))
DocDump(n, out) ==
  LET rows == PrintedRows(out, 0, <<>>)
      nodes == SelectSeq(rows, LAMBDA r : IsNode(r[2]))
      args == SelectSeq(rows, LAMBDA r : ~IsNode(r[2]) /\ r[2] # Null)
      want == DocArgs(n, 0)
  IN /\ SameRows(DocRows(n, 0), nodes)
     /\ Len(args) = Len(want)
     /\ \A i \in 1..Len(want) : \E j \in 1..Len(args) : args[j][1] = want[i][1] /\ Starts(args[j][2], 0, want[i][2])
=============================================================================
