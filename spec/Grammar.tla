------------------------------ MODULE Grammar ------------------------------
(* The parser: from tokens (without comments) to the syntax tree.  A result is *)
(* [ok |-> TRUE, n |-> node or nodes, i |-> next token] or [ok |-> FALSE, i],  *)
(* where i is the token at which the grammar can no longer continue.           *)
(* Nodes carry their kind k and line l; an optional child is a sequence of     *)
(* length 0 or 1.                                                              *)
EXTENDS Lex, FiniteSets

RECURSIVE NoComments(_, _)
NoComments(toks, i) == IF i > Len(toks) THEN <<>>
                       ELSE IF toks[i].t \in {"line_comment", "block_comment"} THEN NoComments(toks, i + 1)
                       ELSE <<toks[i]>> \o NoComments(toks, i + 1)
\* tokens with their text where it matters
TokText(src, t) == IF t.t \in {"identifier"} THEN Word(src, t.b, t.b + t.n) ELSE ""
LitText(src, t) == IF t.t \in {"binary_literal", "octal_literal", "decimal_literal", "hexadecimal_literal", "string_literal",
                               "keyword_true", "keyword_false"}
                   THEN SubSeq(src, t.b + 1, t.b + t.n) ELSE <<>>
Prepared(src, t) == [t |-> t.t, l |-> t.l, b |-> t.b, s |-> TokText(src, t), v |-> LitText(src, t)]
RECURSIVE PrepareFrom(_, _, _, _), PrepareFromB(_, _, _, _), PrepareFromF     \* (a function over the indices would be evaluated anew at each use)
PrepareFromF == [a \in Any |-> PrepareFromB(a[1], a[2], a[3], a[4])]
PrepareFrom(src, toks, i, acc) == PrepareFromF[<<src, toks, i, acc>>]
PrepareFromB(src, toks, i, acc) ==
  IF i > Len(toks) THEN acc
  ELSE PrepareFrom(src, toks, i + 1, IF toks[i].t \in {"line_comment", "block_comment"} THEN acc ELSE Append(acc, Prepared(src, toks[i])))
Prepare(src, toks) == PrepareFrom(src, toks, 1, <<>>)

T(ts, i) == IF i <= Len(ts) THEN ts[i].t ELSE "eof"
Yes(n, i) == [ok |-> TRUE, n |-> n, i |-> i]
No(i) == [ok |-> FALSE, i |-> i]

IntLits == {"binary_literal", "octal_literal", "decimal_literal", "hexadecimal_literal"}
BoolLits == {"keyword_true", "keyword_false"}
UnTok == [plus |-> "unary_plus", minus |-> "unary_minus", logical_not |-> "logical_not", bitwise_not |-> "bitwise_not"]
ArithTok == [plus |-> "binary_plus", minus |-> "binary_minus", multiplication |-> "multiplication",
             division |-> "division", remainder |-> "remainder"]
CmpToks == {"equals", "not_equals", "less_than", "greater_than", "less_or_equal", "greater_or_equal"}
OtherToks == {"logical_and", "logical_or", "shift_left", "shift_right", "bitwise_and", "bitwise_or", "bitwise_xor"}
IsArithTok(t) == t \in DOMAIN ArithTok
IsCmpTok(t) == t \in CmpToks
IsBinTok(t) == IsArithTok(t) \/ IsCmpTok(t) \/ t \in OtherToks
BinOp(t) == IF IsArithTok(t) THEN ArithTok[t] ELSE t

Bin(tok, x, y) == [k |-> "bin", l |-> tok.l, op |-> BinOp(tok.t), x |-> x, y |-> y]

RECURSIVE PExpr(_, _), PExprB(_, _), PExprF, PIfExpr(_, _), PIfExprB(_, _), PIfExprF, PIfRest(_, _, _), PBinRest(_, _, _), PPrefix(_, _), PArith(_, _), PPostfix(_, _), PPostfixB(_, _), PPostfixF, PParen(_, _),
          PArgs(_, _, _), PArgsB(_, _, _), PArgsF, PType(_, _), PAnns(_, _, _), PAnnsB(_, _, _), PAnnsF, PAnnArgs(_, _, _), PAnnArgsB(_, _, _), PAnnArgsF,
          PBlock(_, _), PBlockB(_, _), PBlockF, PStmts(_, _, _), PStmtsB(_, _, _), PStmtsF, PStmt(_, _), PStmtB(_, _), PStmtF, PIfStmt(_, _, _), PIfStmtB(_, _, _), PIfStmtF, PAnnIf(_, _), PParams(_, _, _), PParamsB(_, _, _), PParamsF, PDecls(_, _, _), PDeclsB(_, _, _), PDeclsF

Expect(ts, i, t) == T(ts, i) = t

\* ---- expressions
PExprF == [a \in Any |-> PExprB(a[1], a[2])]
PExpr(ts, i) == PExprF[<<ts, i>>]
PExprB(ts, i) ==
  LET p == PPrefix(ts, i) IN
  IF ~p.ok THEN p
  ELSE IF T(ts, p.i) = "keyword_as"
       THEN LET y == PType(ts, p.i + 1)
            IN IF ~y.ok THEN y ELSE Yes([k |-> "conv", l |-> p.n.l, x |-> p.n, ty |-> y.n], y.i)
  ELSE LET b == PBinRest(ts, p.n, p.i) IN IF ~b.ok THEN b ELSE PIfRest(ts, b.n, b.i)
\* a binary expression whose first prefix expression x ends before token i
PBinRest(ts, x, i) ==
  IF ~IsBinTok(T(ts, i)) THEN Yes(x, i)
  ELSE LET op == ts[i]
       IN IF IsCmpTok(op.t)
          THEN LET r == PArith(ts, i + 1) IN IF ~r.ok THEN r ELSE Yes(Bin(op, x, r.n), r.i)
          ELSE LET r == PPrefix(ts, i + 1) IN
               IF ~r.ok THEN r
               ELSE IF IsArithTok(op.t) /\ IsCmpTok(T(ts, r.i))
                    THEN LET s == PArith(ts, r.i + 1)
                         IN IF ~s.ok THEN s ELSE Yes(Bin(ts[r.i], Bin(op, x, r.n), s.n), s.i)
               ELSE Yes(Bin(op, x, r.n), r.i)
PArith(ts, i) ==
  LET x == PPrefix(ts, i) IN
  IF ~x.ok \/ ~IsArithTok(T(ts, x.i)) THEN x
  ELSE LET y == PPrefix(ts, x.i + 1) IN IF ~y.ok THEN y ELSE Yes(Bin(ts[x.i], x.n, y.n), y.i)
PIfExprF == [a \in Any |-> PIfExprB(a[1], a[2])]
PIfExpr(ts, i) == PIfExprF[<<ts, i>>]
PIfExprB(ts, i) ==
  LET p == PPrefix(ts, i) IN
  IF ~p.ok THEN p ELSE LET b == PBinRest(ts, p.n, p.i) IN IF ~b.ok THEN b ELSE PIfRest(ts, b.n, b.i)
PIfRest(ts, x, i) ==
  IF T(ts, i) # "keyword_if" THEN Yes(x, i)
  ELSE LET p == PPrefix(ts, i + 1)
           c == IF p.ok THEN PBinRest(ts, p.n, p.i) ELSE p
       IN IF ~c.ok THEN c
          ELSE IF T(ts, c.i) # "keyword_else" THEN No(c.i)
          ELSE LET y == PIfExpr(ts, c.i + 1)
               IN IF ~y.ok THEN y ELSE Yes([k |-> "ife", l |-> x.l, x |-> x, c |-> c.n, y |-> y.n], y.i)
PPrefix(ts, i) ==
  IF T(ts, i) \in DOMAIN UnTok
  THEN LET x == PPostfix(ts, i + 1)
       IN IF ~x.ok THEN x ELSE Yes([k |-> "un", l |-> ts[i].l, op |-> UnTok[ts[i].t], x |-> x.n], x.i)
  ELSE PPostfix(ts, i)
PPostfixF == [a \in Any |-> PPostfixB(a[1], a[2])]
PPostfix(ts, i) == PPostfixF[<<ts, i>>]
PPostfixB(ts, i) ==
  LET t == T(ts, i) IN
  CASE t = "identifier" /\ T(ts, i + 1) = "left_parenthesis" ->
         LET a == IF T(ts, i + 2) = "right_parenthesis" THEN Yes(<<>>, i + 3) ELSE PArgs(ts, i + 2, <<>>)
             n == IF a.ok /\ T(ts, a.i) = "at" THEN PAnns(ts, a.i, <<>>) ELSE Yes(<<>>, a.i)
         IN IF ~a.ok THEN a ELSE IF ~n.ok THEN n
            ELSE Yes([k |-> "call", l |-> ts[i].l, name |-> ts[i].s, args |-> a.n, ann |-> n.n], n.i)
    [] t = "identifier" -> Yes([k |-> "id", l |-> ts[i].l, name |-> ts[i].s], i + 1)
    [] t \in IntLits -> Yes([k |-> "int", l |-> ts[i].l, v |-> ts[i].v], i + 1)
    [] t \in BoolLits -> Yes([k |-> "bool", l |-> ts[i].l, v |-> t = "keyword_true"], i + 1)
    [] OTHER -> PParen(ts, i)
PParen(ts, i) ==
  IF T(ts, i) # "left_parenthesis" THEN No(i)
  ELSE LET e == PExpr(ts, i + 1)
       IN IF ~e.ok THEN e ELSE IF T(ts, e.i) # "right_parenthesis" THEN No(e.i) ELSE Yes(e.n, e.i + 1)
PArgsF == [a \in Any |-> PArgsB(a[1], a[2], a[3])]
PArgs(ts, i, acc) == PArgsF[<<ts, i, acc>>]
PArgsB(ts, i, acc) ==
  LET e == PExpr(ts, i) IN
  IF ~e.ok THEN e
  ELSE CASE T(ts, e.i) = "comma" -> PArgs(ts, e.i + 1, Append(acc, e.n))
         [] T(ts, e.i) = "right_parenthesis" -> Yes(Append(acc, e.n), e.i + 1)
         [] OTHER -> No(e.i)
PType(ts, i) ==
  CASE T(ts, i) = "keyword_void" -> Yes([k |-> "type", l |-> ts[i].l, t |-> "Void", w |-> <<>>], i + 1)
    [] T(ts, i) = "keyword_bool" -> Yes([k |-> "type", l |-> ts[i].l, t |-> "Bool", w |-> <<>>], i + 1)
    [] T(ts, i) = "keyword_int" -> Yes([k |-> "type", l |-> ts[i].l, t |-> "Int", w |-> <<>>], i + 1)
    [] T(ts, i) = "keyword_uint" ->
         LET e == PParen(ts, i + 1)
         IN IF ~e.ok THEN e ELSE Yes([k |-> "type", l |-> ts[i].l, t |-> "Uint", w |-> <<e.n>>], e.i)
    [] OTHER -> No(i)
\* ---- annotations
PAnnsF == [a \in Any |-> PAnnsB(a[1], a[2], a[3])]
PAnns(ts, i, acc) == PAnnsF[<<ts, i, acc>>]
PAnnsB(ts, i, acc) ==
  IF T(ts, i) # "at" THEN No(i)
  ELSE IF T(ts, i + 1) # "identifier" THEN No(i + 1)
  ELSE LET a == IF T(ts, i + 2) # "left_parenthesis" THEN Yes(<<>>, i + 2)
                ELSE IF T(ts, i + 3) = "right_parenthesis" THEN Yes(<<>>, i + 4)
                ELSE PAnnArgs(ts, i + 3, <<>>)
       IN IF ~a.ok THEN a
          ELSE LET more == Append(acc, [k |-> "ann", l |-> ts[i].l, name |-> ts[i + 1].s, args |-> a.n])
               IN IF T(ts, a.i) = "at" THEN PAnns(ts, a.i, more) ELSE Yes(more, a.i)
PAnnArgsF == [a \in Any |-> PAnnArgsB(a[1], a[2], a[3])]
PAnnArgs(ts, i, acc) == PAnnArgsF[<<ts, i, acc>>]
PAnnArgsB(ts, i, acc) ==
  LET keyed == T(ts, i) = "identifier"
      j == IF keyed THEN i + 2 ELSE i
  IN IF keyed /\ T(ts, i + 1) # "assign" THEN No(i + 1)
     ELSE IF T(ts, j) \notin (IntLits \cup BoolLits \cup {"string_literal"}) THEN No(j)
     ELSE LET v == ts[j].v
              more == Append(acc, [k |-> "arg", l |-> ts[i].l, key |-> IF keyed THEN ts[i].s ELSE "", t |-> ts[j].t,
                                   v |-> IF ts[j].t = "string_literal" THEN SubSeq(v, 2, Len(v) - 1) ELSE v])
          IN CASE T(ts, j + 1) = "comma" -> PAnnArgs(ts, j + 2, more)
               [] T(ts, j + 1) = "right_parenthesis" -> Yes(more, j + 2)
               [] OTHER -> No(j + 1)
\* ---- declarations and statements; ann: the annotations in front
TypeAndInit(ts, i, initRequired) ==         \* [: type] [= expression] ; -> [ty, init]
  LET t == IF T(ts, i) = "colon" THEN PType(ts, i + 1) ELSE Yes(<<>>, i)
      ty == IF T(ts, i) = "colon" THEN <<t.n>> ELSE <<>>
  IN IF ~t.ok THEN t
     ELSE IF T(ts, t.i) = "assign"
          THEN LET e == PExpr(ts, t.i + 1)
               IN IF ~e.ok THEN e ELSE IF T(ts, e.i) # "semicolon" THEN No(e.i)
                  ELSE Yes([ty |-> ty, init |-> <<e.n>>], e.i + 1)
     ELSE IF initRequired \/ ty = <<>> \/ T(ts, t.i) # "semicolon" THEN No(t.i)
     ELSE Yes([ty |-> ty, init |-> <<>>], t.i + 1)
PVar(ts, i, kind, ann) ==
  IF T(ts, i + 1) # "identifier" THEN No(i + 1)
  ELSE LET d == TypeAndInit(ts, i + 2, kind = "const")
       IN IF ~d.ok THEN d ELSE Yes([k |-> kind, l |-> ts[i].l, b |-> ts[i].b, name |-> ts[i + 1].s, ty |-> d.n.ty,
                                    init |-> d.n.init, ann |-> ann], d.i)
PStaticAssert(ts, i) ==
  LET e == PParen(ts, i + 1)
  IN IF ~e.ok THEN e ELSE IF T(ts, e.i) # "semicolon" THEN No(e.i)
     ELSE Yes([k |-> "sassert", l |-> ts[i].l, x |-> e.n], e.i + 1)
PAssign(ts, i, ann) ==
  IF T(ts, i + 1) # "assign" THEN No(i + 1)
  ELSE LET e == PExpr(ts, i + 2)
       IN IF ~e.ok THEN e ELSE IF T(ts, e.i) # "semicolon" THEN No(e.i)
          ELSE Yes([k |-> "assign", l |-> ts[i].l, name |-> ts[i].s, x |-> e.n, ann |-> ann], e.i + 1)
PAnnIf(ts, i) ==
  LET a == PAnns(ts, i, <<>>)
  IN IF ~a.ok THEN a ELSE IF T(ts, a.i) # "keyword_if" THEN No(a.i) ELSE PIfStmt(ts, a.i, a.n)
PIfStmtF == [a \in Any |-> PIfStmtB(a[1], a[2], a[3])]
PIfStmt(ts, i, ann) == PIfStmtF[<<ts, i, ann>>]
PIfStmtB(ts, i, ann) ==
  LET c == PExpr(ts, i + 1)
      b == IF c.ok THEN PBlock(ts, c.i) ELSE c
      hasElse == b.ok /\ T(ts, b.i) = "keyword_else"
      e == IF ~hasElse THEN Yes(<<>>, b.i)
           ELSE IF T(ts, b.i + 1) = "keyword_if" THEN PIfStmt(ts, b.i + 1, <<>>)
           ELSE IF T(ts, b.i + 1) = "at" THEN PAnnIf(ts, b.i + 1) ELSE PBlock(ts, b.i + 1)
  IN IF ~b.ok THEN b ELSE IF ~e.ok THEN e
     ELSE Yes([k |-> "if", l |-> ts[i].l, c |-> c.n, then |-> b.n, else |-> IF hasElse THEN <<e.n>> ELSE <<>>, ann |-> ann], e.i)
PWhile(ts, i, ann) ==
  LET c == PExpr(ts, i + 1)
      b == IF c.ok THEN PBlock(ts, c.i) ELSE c
  IN IF ~b.ok THEN b ELSE Yes([k |-> "while", l |-> ts[i].l, c |-> c.n, body |-> b.n, ann |-> ann], b.i)
PStmtF == [a \in Any |-> PStmtB(a[1], a[2])]
PStmt(ts, i) == PStmtF[<<ts, i>>]
PStmtB(ts, i) ==
  LET t == T(ts, i) IN
  CASE t = "at" ->
         LET a == PAnns(ts, i, <<>>) IN
         IF ~a.ok THEN a
         ELSE CASE T(ts, a.i) = "keyword_const" -> PVar(ts, a.i, "const", a.n)
                [] T(ts, a.i) = "keyword_let" -> PVar(ts, a.i, "let", a.n)
                [] T(ts, a.i) = "keyword_if" -> PIfStmt(ts, a.i, a.n)
                [] T(ts, a.i) = "keyword_while" -> PWhile(ts, a.i, a.n)
                [] T(ts, a.i) = "identifier" -> PAssign(ts, a.i, a.n)
                [] OTHER -> No(a.i)
    [] t = "keyword_let" -> PVar(ts, i, "let", <<>>)
    [] t = "keyword_const" -> PVar(ts, i, "const", <<>>)
    [] t = "keyword_static_assert" -> PStaticAssert(ts, i)
    [] t \in {"keyword_break", "keyword_continue"} ->
         IF T(ts, i + 1) # "semicolon" THEN No(i + 1)
         ELSE Yes([k |-> IF t = "keyword_break" THEN "break" ELSE "continue", l |-> ts[i].l], i + 2)
    [] t = "keyword_return" ->
         IF T(ts, i + 1) = "semicolon" THEN Yes([k |-> "return", l |-> ts[i].l, x |-> <<>>], i + 2)
         ELSE LET e == PExpr(ts, i + 1)
              IN IF ~e.ok THEN e ELSE IF T(ts, e.i) # "semicolon" THEN No(e.i)
                 ELSE Yes([k |-> "return", l |-> ts[i].l, x |-> <<e.n>>], e.i + 1)
    [] t = "keyword_if" -> PIfStmt(ts, i, <<>>)
    [] t = "keyword_while" -> PWhile(ts, i, <<>>)
    [] t = "left_brace" -> PBlock(ts, i)
    [] t = "identifier" ->
         IF T(ts, i + 1) = "assign" THEN PAssign(ts, i, <<>>)
         ELSE IF T(ts, i + 1) # "left_parenthesis" THEN No(i + 1)
         ELSE LET c == PPostfix(ts, i)
              IN IF ~c.ok THEN c ELSE IF T(ts, c.i) # "semicolon" THEN No(c.i)
                 ELSE Yes([k |-> "callst", l |-> c.n.l, x |-> c.n], c.i + 1)
    [] OTHER -> No(i)
PBlockF == [a \in Any |-> PBlockB(a[1], a[2])]
PBlock(ts, i) == PBlockF[<<ts, i>>]
PBlockB(ts, i) == IF T(ts, i) # "left_brace" THEN No(i)
                 ELSE LET s == PStmts(ts, i + 1, <<>>)
                      IN IF ~s.ok THEN s ELSE Yes([k |-> "block", l |-> ts[i].l, body |-> s.n], s.i)
PStmtsF == [a \in Any |-> PStmtsB(a[1], a[2], a[3])]
PStmts(ts, i, acc) == PStmtsF[<<ts, i, acc>>]
PStmtsB(ts, i, acc) ==
  IF T(ts, i) = "right_brace" THEN Yes(acc, i + 1)
  ELSE LET s == PStmt(ts, i) IN IF ~s.ok THEN s ELSE PStmts(ts, s.i, Append(acc, s.n))
PParamsF == [a \in Any |-> PParamsB(a[1], a[2], a[3])]
PParams(ts, i, acc) == PParamsF[<<ts, i, acc>>]
PParamsB(ts, i, acc) ==
  IF T(ts, i) # "identifier" THEN No(i)
  ELSE IF T(ts, i + 1) # "colon" THEN No(i + 1)
  ELSE LET t == PType(ts, i + 2)
           more == Append(acc, [k |-> "param", l |-> ts[i].l, name |-> ts[i].s, ty |-> t.n])
       IN IF ~t.ok THEN t
          ELSE IF T(ts, t.i) = "comma" THEN PParams(ts, t.i + 1, more) ELSE Yes(more, t.i)
PFunction(ts, i, ann) ==
  IF T(ts, i + 1) # "identifier" THEN No(i + 1)
  ELSE IF T(ts, i + 2) # "left_parenthesis" THEN No(i + 2)
  ELSE LET ps == IF T(ts, i + 3) = "right_parenthesis" THEN Yes(<<>>, i + 3) ELSE PParams(ts, i + 3, <<>>)
       IN IF ~ps.ok THEN ps
          ELSE IF T(ts, ps.i) # "right_parenthesis" THEN No(ps.i)
          ELSE IF T(ts, ps.i + 1) # "right_arrow" THEN No(ps.i + 1)
          ELSE LET r == PType(ts, ps.i + 2)
                   hasReq == r.ok /\ T(ts, r.i) = "keyword_requires"
                   q == IF ~r.ok THEN r ELSE IF hasReq THEN PExpr(ts, r.i + 1) ELSE Yes(<<>>, r.i)
                   b == IF q.ok THEN PBlock(ts, q.i) ELSE q
               IN IF ~b.ok THEN b
                  ELSE Yes([k |-> "function", l |-> ts[i].l, name |-> ts[i + 1].s, params |-> ps.n, ret |-> r.n,
                            req |-> IF hasReq THEN <<q.n>> ELSE <<>>, body |-> b.n, ann |-> ann], b.i)
PDecl(ts, i) ==
  CASE T(ts, i) = "at" ->
         LET a == PAnns(ts, i, <<>>) IN
         IF ~a.ok THEN a
         ELSE CASE T(ts, a.i) = "keyword_const" -> PVar(ts, a.i, "const", a.n)
                [] T(ts, a.i) = "keyword_function" -> PFunction(ts, a.i, a.n)
                [] OTHER -> No(a.i)
    [] T(ts, i) = "keyword_const" -> PVar(ts, i, "const", <<>>)
    [] T(ts, i) = "keyword_function" -> PFunction(ts, i, <<>>)
    [] T(ts, i) = "keyword_static_assert" -> PStaticAssert(ts, i)
    [] OTHER -> No(i)
PDeclsF == [a \in Any |-> PDeclsB(a[1], a[2], a[3])]
PDecls(ts, i, acc) == PDeclsF[<<ts, i, acc>>]
PDeclsB(ts, i, acc) ==
  LET d == PDecl(ts, i) IN
  IF ~d.ok THEN d ELSE IF d.i > Len(ts) THEN Yes(Append(acc, d.n), d.i) ELSE PDecls(ts, d.i, Append(acc, d.n))
PProgram(ts) == PDecls(ts, 1, <<>>)
=============================================================================
