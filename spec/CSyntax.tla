------------------------------ MODULE CSyntax ------------------------------
(* A reader for the part of C and C++ that scripts are translated to: from     *)
(* text (bytes) to a syntax tree.  A result is [ok |-> TRUE, n, i] or          *)
(* [ok |-> FALSE, i], i being the next or the offending token.                 *)
EXTENDS Names

\* ---- tokens: [t |-> "id" | "num" | "op", s |-> its text, v |-> bytes of a number]
COps3 == {"<<=", ">>=", "...", "<=>"}
COps2 == {"++", "--", "->", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "::", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "##"}
RECURSIVE EndC(_, _), EndNum(_, _), CTok(_, _, _), CTokB(_, _, _), CTokF
EndC(src, p) == IF p + 1 >= Len(src) THEN Len(src) ELSE IF src[p + 1] = 42 /\ src[p + 2] = 47 THEN p + 2 ELSE EndC(src, p + 1)
EndNum(src, p) == IF p < Len(src) /\ (IsIdChar(src[p + 1]) \/ src[p + 1] \in {39, 46}) THEN EndNum(src, p + 1) ELSE p
CTokF == [a \in Any |-> CTokB(a[1], a[2], a[3])]
CTok(src, p, acc) == CTokF[<<src, p, acc>>]
CTokB(src, p, acc) ==
  LET c == At(src, p)
      c2 == At(src, p + 1)
      lineStart == acc = <<>> \/ acc[Len(acc)].e <= p
      w3 == Word(src, p, IF p + 3 > Len(src) THEN Len(src) ELSE p + 3)
      w2 == Word(src, p, IF p + 2 > Len(src) THEN Len(src) ELSE p + 2)
      tok(t, e) == CTok(src, e, Append(acc, [t |-> t, s |-> Word(src, p, e), v |-> IF t = "num" THEN SubSeq(src, p + 1, e) ELSE <<>>, e |-> e]))
  IN IF c = -1 THEN acc
     ELSE IF IsSpace(c) THEN CTok(src, p + 1, acc)
     ELSE IF c = 47 /\ c2 = 47 THEN CTok(src, EndOfLine(src, p), acc)
     ELSE IF c = 47 /\ c2 = 42 THEN CTok(src, EndC(src, p + 2), acc)
     ELSE IF c = 35 THEN CTok(src, EndOfLine(src, p), acc)                 \* a directive
     ELSE IF IsIdStart(c) THEN tok("id", EndOfId(src, p))
     ELSE IF IsDigit(c) THEN tok("num", EndNum(src, p))
     ELSE IF w3 \in COps3 THEN tok("op", p + 3)
     ELSE IF w2 \in COps2 THEN tok("op", p + 2)
     ELSE tok("op", p + 1)
CTokens(src) == CTok(src, 0, <<>>)

CTx(ts, i) == IF i <= Len(ts) THEN ts[i].s ELSE ""
CIs(ts, i, s) == i <= Len(ts) /\ ts[i].t # "num" /\ ts[i].s = s
CKeywords == {"void", "int", "bool", "_Bool", "unsigned", "_BitInt", "if", "else", "while", "break", "continue", "return", "constexpr",
              "const", "static", "inline", "for", "do", "switch", "case", "default", "goto", "struct", "union", "enum", "typedef", "sizeof"}
IsName(ts, i) == i <= Len(ts) /\ ts[i].t = "id" /\ ts[i].s \notin (CKeywords \cup {"true", "false"})
CYes(n, i) == [ok |-> TRUE, n |-> n, i |-> i]
CNo(i) == [ok |-> FALSE, i |-> i]

\* ---- types, each as it is spelled
CUints == {"uint8_t", "uint16_t", "uint32_t", "uint64_t"}
CType(ts, i) ==
  IF CTx(ts, i) \in {"void", "int", "bool", "_Bool"} \cup CUints THEN CYes(CTx(ts, i), i + 1)
  ELSE IF CIs(ts, i, "std") /\ CIs(ts, i + 1, "::") /\ CTx(ts, i + 2) \in CUints THEN CYes("std::" \o CTx(ts, i + 2), i + 3)
  ELSE IF CIs(ts, i, "unsigned") /\ CIs(ts, i + 1, "_BitInt") /\ CIs(ts, i + 2, "(") /\ CIs(ts, i + 4, ")")
       THEN CYes("unsigned _BitInt(" \o CTx(ts, i + 3) \o ")", i + 5)
  ELSE CNo(i)
StartsType(ts, i) == CType(ts, i).ok

\* ---- expressions
Prec == ("||" :> 1) @@ ("&&" :> 2) @@ ("|" :> 3) @@ ("^" :> 4) @@ ("&" :> 5) @@ ("==" :> 6) @@ ("!=" :> 6) @@ ("<" :> 7) @@ (">" :> 7)
        @@ ("<=" :> 7) @@ (">=" :> 7) @@ ("<<" :> 8) @@ (">>" :> 8) @@ ("+" :> 9) @@ ("-" :> 9) @@ ("*" :> 10) @@ ("/" :> 10) @@ ("%" :> 10)
PrecAt(ts, i) == IF i <= Len(ts) /\ ts[i].t = "op" /\ ts[i].s \in DOMAIN Prec THEN Prec[ts[i].s] ELSE 0
EBin(op, x, y) == "(" \o x \o " " \o op \o " " \o y \o ")"
EUn(op, x) == "(" \o op \o " " \o x \o ")"
ECond(c, x, y) == "(" \o c \o " ? " \o x \o " : " \o y \o ")"
ECast(t, x) == "({" \o t \o "} " \o x \o ")"
RECURSIVE LimbText(_, _)
LimbText(m, i) == IF i > Len(m) THEN "" ELSE "." \o ToString(m[i]) \o LimbText(m, i + 1)
ENum(m) == "#" \o LimbText(m, 1)                  \* m: a natural number (BigInt)
EName(s) == s
RECURSIVE ListText(_, _)
ListText(xs, i) == IF i > Len(xs) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o xs[i] \o ListText(xs, i + 1)
ECall(f, xs) == f \o "(" \o ListText(xs, 1) \o ")"
\* the value of a literal, without its suffix
RECURSIVE NoSuffix(_)
NoSuffix(v) == IF Len(v) > 1 /\ v[Len(v)] \in {85, 117, 76, 108} THEN NoSuffix(SubSeq(v, 1, Len(v) - 1)) ELSE v
GoodLit(v) == LET w == IF Len(v) > 1 /\ v[1] = 48 /\ v[2] = 88 THEN <<48, 120>> \o SubSeq(v, 3, Len(v)) ELSE v IN
              IF Len(w) > 1 /\ w[1] = 48
              THEN IF w[2] = 120 THEN Len(w) > 2 /\ \A i \in 3..Len(w) : IsHex(w[i])
                   ELSE IF w[2] = 98 THEN Len(w) > 2 /\ \A i \in 3..Len(w) : IsBin(w[i])
                   ELSE \A i \in 2..Len(w) : IsOct(w[i])
              ELSE \A i \in 1..Len(w) : IsDigit(w[i])

RECURSIVE CExpr(_, _), CExprB(_, _), CExprF, CBin(_, _, _), CBinB(_, _, _), CBinF, CBinRest(_, _, _, _), CBinRestB(_, _, _, _), CBinRestF,
          CUnary(_, _), CUnaryB(_, _), CUnaryF, CArgs(_, _, _), CArgsB(_, _, _), CArgsF
CExprF == [a \in Any |-> CExprB(a[1], a[2])]
CExpr(ts, i) == CExprF[<<ts, i>>]
CExprB(ts, i) ==
  LET c == CBin(ts, i, 1) IN
  IF ~c.ok \/ ~CIs(ts, c.i, "?") THEN c
  ELSE LET x == CExpr(ts, c.i + 1) IN
       IF ~x.ok THEN x ELSE IF ~CIs(ts, x.i, ":") THEN CNo(x.i)
       ELSE LET y == CExpr(ts, x.i + 1) IN IF ~y.ok THEN y ELSE CYes(ECond(c.n, x.n, y.n), y.i)
CBinF == [a \in Any |-> CBinB(a[1], a[2], a[3])]
CBin(ts, i, p) == CBinF[<<ts, i, p>>]
CBinB(ts, i, p) == LET x == CUnary(ts, i) IN IF ~x.ok THEN x ELSE CBinRest(ts, x.n, x.i, p)
CBinRestF == [a \in Any |-> CBinRestB(a[1], a[2], a[3], a[4])]
CBinRest(ts, x, i, p) == CBinRestF[<<ts, x, i, p>>]
CBinRestB(ts, x, i, p) ==
  LET q == PrecAt(ts, i) IN
  IF q < p \/ q = 0 THEN CYes(x, i)
  ELSE LET y == CBin(ts, i + 1, q + 1) IN IF ~y.ok THEN y ELSE CBinRest(ts, EBin(ts[i].s, x, y.n), y.i, p)
CUnaryF == [a \in Any |-> CUnaryB(a[1], a[2])]
CUnary(ts, i) == CUnaryF[<<ts, i>>]
CUnaryB(ts, i) ==
  IF i > Len(ts) THEN CNo(i)
  ELSE IF ts[i].t = "op" /\ ts[i].s \in {"+", "-", "!", "~"}
       THEN LET x == CUnary(ts, i + 1) IN IF ~x.ok THEN x ELSE CYes(EUn(ts[i].s, x.n), x.i)
  ELSE IF CIs(ts, i, "(")
       THEN IF StartsType(ts, i + 1)
            THEN LET t == CType(ts, i + 1)
                     x == IF CIs(ts, t.i, ")") THEN CUnary(ts, t.i + 1) ELSE CNo(t.i)
                 IN IF ~x.ok THEN x ELSE CYes(ECast(t.n, x.n), x.i)
            ELSE LET x == CExpr(ts, i + 1) IN IF ~x.ok THEN x ELSE IF ~CIs(ts, x.i, ")") THEN CNo(x.i) ELSE CYes(x.n, x.i + 1)
  ELSE IF ts[i].t = "num" THEN (IF GoodLit(NoSuffix(ts[i].v)) THEN CYes(ENum(LiteralNat(NoSuffix(ts[i].v))), i + 1) ELSE CNo(i))
  ELSE IF ts[i].t = "id" /\ ts[i].s \in {"true", "false"} THEN CYes(ts[i].s, i + 1)
  ELSE IF IsName(ts, i)
       THEN IF ~CIs(ts, i + 1, "(") THEN CYes(EName(ts[i].s), i + 1)
            ELSE LET a == IF CIs(ts, i + 2, ")") THEN CYes(<<>>, i + 3) ELSE CArgs(ts, i + 2, <<>>)
                 IN IF ~a.ok THEN a ELSE CYes(ECall(ts[i].s, a.n), a.i)
  ELSE CNo(i)
CArgsF == [a \in Any |-> CArgsB(a[1], a[2], a[3])]
CArgs(ts, i, acc) == CArgsF[<<ts, i, acc>>]
CArgsB(ts, i, acc) ==
  LET e == CExpr(ts, i) IN
  IF ~e.ok THEN e
  ELSE IF CIs(ts, e.i, ",") THEN CArgs(ts, e.i + 1, Append(acc, e.n))
  ELSE IF CIs(ts, e.i, ")") THEN CYes(Append(acc, e.n), e.i + 1)
  ELSE CNo(e.i)

\* ---- statements and declarations, as texts
RECURSIVE SeqText(_, _)
SeqText(xs, i) == IF i > Len(xs) THEN "" ELSE xs[i] \o " " \o SeqText(xs, i + 1)
TVar(k, t, name, init) == k \o t \o " " \o name \o (IF init = <<>> THEN "" ELSE " = " \o init[1]) \o ";"
TAssign(name, x) == name \o " = " \o x \o ";"
TDo(x) == x \o ";"
TReturn(x) == "return" \o (IF x = <<>> THEN "" ELSE " " \o x[1]) \o ";"
TBlock(xs) == "{ " \o SeqText(xs, 1) \o "}"
TIf(c, t, e) == "if " \o c \o " " \o t \o (IF e = <<>> THEN "" ELSE " else " \o e[1])
TWhile(c, b) == "while " \o c \o " " \o b
TFun(ret, name, params, body) == ret \o " " \o name \o "(" \o ListText(params, 1) \o ") " \o body
RECURSIVE CBlock(_, _), CBlockB(_, _), CBlockF, CStmts(_, _, _), CStmtsB(_, _, _), CStmtsF, CStmt(_, _), CStmtB(_, _), CStmtF,
          CParams(_, _, _), CDecls(_, _, _), CDeclsB(_, _, _), CDeclsF
CVar(ts, i, k) ==                      \* i: at the type
  LET t == CType(ts, i) IN
  IF ~t.ok THEN t
  ELSE IF ~IsName(ts, t.i) THEN CNo(t.i)
  ELSE IF CIs(ts, t.i + 1, ";") THEN (IF k = "" THEN CYes(TVar(k, t.n, CTx(ts, t.i), <<>>), t.i + 2) ELSE CNo(t.i + 1))
  ELSE IF ~CIs(ts, t.i + 1, "=") THEN CNo(t.i + 1)
  ELSE LET e == CExpr(ts, t.i + 2) IN
       IF ~e.ok THEN e ELSE IF ~CIs(ts, e.i, ";") THEN CNo(e.i) ELSE CYes(TVar(k, t.n, CTx(ts, t.i), <<e.n>>), e.i + 1)
CCondition(ts, i) == IF ~CIs(ts, i, "(") THEN CNo(i)
                     ELSE LET e == CExpr(ts, i + 1) IN IF ~e.ok THEN e ELSE IF ~CIs(ts, e.i, ")") THEN CNo(e.i) ELSE CYes(e.n, e.i + 1)
CBlockF == [a \in Any |-> CBlockB(a[1], a[2])]
CBlock(ts, i) == CBlockF[<<ts, i>>]
CBlockB(ts, i) == IF ~CIs(ts, i, "{") THEN CNo(i) ELSE LET s == CStmts(ts, i + 1, <<>>) IN IF ~s.ok THEN s ELSE CYes(TBlock(s.n), s.i)
CStmtsF == [a \in Any |-> CStmtsB(a[1], a[2], a[3])]
CStmts(ts, i, acc) == CStmtsF[<<ts, i, acc>>]
CStmtsB(ts, i, acc) == IF CIs(ts, i, "}") THEN CYes(acc, i + 1)
                       ELSE LET s == CStmt(ts, i) IN IF ~s.ok THEN s ELSE CStmts(ts, s.i, Append(acc, s.n))
CStmtF == [a \in Any |-> CStmtB(a[1], a[2])]
CStmt(ts, i) == CStmtF[<<ts, i>>]
CStmtB(ts, i) ==
  CASE CIs(ts, i, "{") -> CBlock(ts, i)
    [] CIs(ts, i, "constexpr") -> CVar(ts, i + 1, "constexpr ")
    [] CIs(ts, i, "if") ->
         LET c == CCondition(ts, i + 1)
             b == IF c.ok THEN CBlock(ts, c.i) ELSE c
             e == IF ~b.ok THEN b ELSE IF ~CIs(ts, b.i, "else") THEN CYes(<<>>, b.i)
                  ELSE LET r == IF CIs(ts, b.i + 1, "if") THEN CStmt(ts, b.i + 1) ELSE CBlock(ts, b.i + 1)
                       IN IF ~r.ok THEN r ELSE CYes(<<r.n>>, r.i)
         IN IF ~e.ok THEN e ELSE CYes(TIf(c.n, b.n, e.n), e.i)
    [] CIs(ts, i, "while") ->
         LET c == CCondition(ts, i + 1)
             b == IF c.ok THEN CBlock(ts, c.i) ELSE c
         IN IF ~b.ok THEN b ELSE CYes(TWhile(c.n, b.n), b.i)
    [] CIs(ts, i, "break") \/ CIs(ts, i, "continue") -> IF CIs(ts, i + 1, ";") THEN CYes(CTx(ts, i) \o ";", i + 2) ELSE CNo(i + 1)
    [] CIs(ts, i, "return") ->
         IF CIs(ts, i + 1, ";") THEN CYes(TReturn(<<>>), i + 2)
         ELSE LET e == CExpr(ts, i + 1) IN IF ~e.ok THEN e ELSE IF ~CIs(ts, e.i, ";") THEN CNo(e.i) ELSE CYes(TReturn(<<e.n>>), e.i + 1)
    [] StartsType(ts, i) -> CVar(ts, i, "")
    [] IsName(ts, i) /\ CIs(ts, i + 1, "=") ->
         LET e == CExpr(ts, i + 2) IN IF ~e.ok THEN e ELSE IF ~CIs(ts, e.i, ";") THEN CNo(e.i) ELSE CYes(TAssign(CTx(ts, i), e.n), e.i + 1)
    [] OTHER -> LET e == CExpr(ts, i) IN IF ~e.ok THEN e ELSE IF ~CIs(ts, e.i, ";") THEN CNo(e.i) ELSE CYes(TDo(e.n), e.i + 1)
TParam(t, name) == t \o " " \o name
CParams(ts, i, acc) ==
  LET t == CType(ts, i) IN
  IF ~t.ok THEN t ELSE IF ~IsName(ts, t.i) THEN CNo(t.i)
  ELSE LET more == Append(acc, TParam(t.n, CTx(ts, t.i)))
       IN IF CIs(ts, t.i + 1, ",") THEN CParams(ts, t.i + 2, more) ELSE IF CIs(ts, t.i + 1, ")") THEN CYes(more, t.i + 2) ELSE CNo(t.i + 1)
CDecl(ts, i) ==
  IF CIs(ts, i, "constexpr") THEN CVar(ts, i + 1, "constexpr ")
  ELSE LET t == CType(ts, i) IN
       IF ~t.ok THEN t ELSE IF ~IsName(ts, t.i) THEN CNo(t.i) ELSE IF ~CIs(ts, t.i + 1, "(") THEN CNo(t.i + 1)
       ELSE LET ps == IF CIs(ts, t.i + 2, "void") /\ CIs(ts, t.i + 3, ")") THEN CYes(<<>>, t.i + 4) ELSE CParams(ts, t.i + 2, <<>>)
                b == IF ps.ok THEN CBlock(ts, ps.i) ELSE ps
            IN IF ~b.ok THEN b ELSE CYes(TFun(t.n, CTx(ts, t.i), ps.n, b.n), b.i)
CDeclsF == [a \in Any |-> CDeclsB(a[1], a[2], a[3])]
CDecls(ts, i, acc) == CDeclsF[<<ts, i, acc>>]
CDeclsB(ts, i, acc) == IF i > Len(ts) THEN CYes(acc, i)
                       ELSE LET d == CDecl(ts, i) IN IF ~d.ok THEN d ELSE CDecls(ts, d.i, Append(acc, d.n))
CRead(src) == CDecls(CTokens(src), 1, <<>>)
=============================================================================
