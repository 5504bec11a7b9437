----------------------------- MODULE Translate -----------------------------
(* What scripts become in C and C++: the declarations, as the texts that       *)
(* CSyntax reads.  o: options [cpp, c23, bitint].                              *)
(* Results: [ok |-> TRUE, n] or [ok |-> FALSE, why |-> "width" or "skip"].     *)
EXTENDS Lang, CSyntax
Tr(n) == [ok |-> TRUE, n |-> n]
Refused == [ok |-> FALSE, why |-> "width"]
Skipped == [ok |-> FALSE, why |-> "skip"]
\* the type for t
TypeIn(t, o) ==
  CASE t[1] = "Void" -> Tr("void")
    [] t[1] = "Int" -> Tr("int")
    [] t[1] = "Bool" -> Tr(IF o.cpp \/ o.c23 THEN "bool" ELSE "_Bool")
    [] OTHER ->
         LET w == Width(t)
             hasBitInt == o.c23 /\ ~o.cpp
             bit == "unsigned _BitInt(" \o ToString(w) \o ")"
         IN IF hasBitInt /\ o.bitint THEN Tr(bit)
            ELSE IF w \in {8, 16, 32, 64} THEN Tr((IF o.cpp THEN "std::" ELSE "") \o "uint" \o ToString(w) \o "_t")
            ELSE IF hasBitInt THEN Tr(bit) ELSE Refused
VarType(t, o) == IF t = TVoid THEN Skipped ELSE TypeIn(t, o)
ValueIn(v) == CASE v.t = TVoid -> Skipped
                [] v.t = TBool -> Tr(IF Truth(v) THEN "true" ELSE "false")
                [] OTHER -> Tr(IF v.v.n THEN EUn("-", ENum(v.v.m)) ELSE ENum(v.v.m))
UnSign == [unary_plus |-> "+", unary_minus |-> "-", logical_not |-> "!", bitwise_not |-> "~"]
BinSign == [binary_plus |-> "+", binary_minus |-> "-", multiplication |-> "*", division |-> "/", remainder |-> "%",
            equals |-> "==", not_equals |-> "!=", less_than |-> "<", greater_than |-> ">", less_or_equal |-> "<=", greater_or_equal |-> ">=",
            logical_and |-> "&&", logical_or |-> "||", shift_left |-> "<<", shift_right |-> ">>",
            bitwise_and |-> "&", bitwise_or |-> "|", bitwise_xor |-> "^"]
\* X: [S, C, o]
RECURSIVE TrE(_, _, _), TrEB(_, _, _), TrEF, TrEs(_, _, _, _, _), TrEsB(_, _, _, _, _), TrEsF, TrS(_, _, _), TrSB(_, _, _), TrSF, TrB(_, _, _, _, _), TrBB(_, _, _, _, _), TrBF
TrEF == [a \in Any |-> TrEB(a[1], a[2], a[3])]
TrE(n, env, X) == TrEF[<<n, env, X>>]
TrEB(n, env, X) ==
  CASE n.k = "int" -> Tr(ENum(LiteralNat(n.v)))
    [] n.k = "bool" -> Tr(IF n.v THEN "true" ELSE "false")
    [] n.k = "id" -> LET b == env[n.name] IN
         IF b.b \in {"const", "gconst"} /\ ~X.o.c23 THEN ValueIn(IF b.b = "const" THEN b.v[1] ELSE X.S.gv[n.name]) ELSE Tr(EName(n.name))
    [] n.k = "un" -> LET x == TrE(n.x, env, X) IN IF ~x.ok THEN x ELSE Tr(EUn(UnSign[n.op], x.n))
    [] n.k = "bin" -> LET x == TrE(n.x, env, X)
                          y == IF x.ok THEN TrE(n.y, env, X) ELSE x
                      IN IF ~y.ok THEN y ELSE Tr(EBin(BinSign[n.op], x.n, y.n))
    [] n.k = "conv" -> LET t == TypeIn(AnType(n.ty, env, X.S, X.C).t, X.o)
                           x == IF t.ok THEN TrE(n.x, env, X) ELSE t
                       IN IF ~x.ok THEN x ELSE Tr(ECast(t.n, x.n))
    [] n.k = "ife" -> LET c == TrE(n.c, env, X)
                          x == IF c.ok THEN TrE(n.x, env, X) ELSE c
                          y == IF x.ok THEN TrE(n.y, env, X) ELSE x
                      IN IF ~y.ok THEN y ELSE Tr(ECond(c.n, x.n, y.n))
    [] n.k = "call" -> LET a == TrEs(n.args, 1, env, X, <<>>) IN IF ~a.ok THEN a ELSE Tr(ECall(n.name, a.n))
TrEsF == [a \in Any |-> TrEsB(a[1], a[2], a[3], a[4], a[5])]
TrEs(ns, i, env, X, acc) == TrEsF[<<ns, i, env, X, acc>>]
TrEsB(ns, i, env, X, acc) == IF i > Len(ns) THEN Tr(acc)
                             ELSE LET x == TrE(ns[i], env, X) IN IF ~x.ok THEN x ELSE TrEs(ns, i + 1, env, X, Append(acc, x.n))
TrConst(name, v, o) ==
  LET t == VarType(v.t, o)
      x == ValueIn(v)
  IN IF ~t.ok THEN t ELSE IF ~x.ok THEN x ELSE Tr(TVar("constexpr ", t.n, name, <<x.n>>))
\* a statement becomes a sequence of statements, of length 0 or 1; then the names behind it
Stm(s, env) == [ok |-> TRUE, n |-> s, env |-> env]
TrSF == [a \in Any |-> TrSB(a[1], a[2], a[3])]
TrS(n, env, X) == TrSF[<<n, env, X>>]
TrSB(n, env, X) ==
  CASE n.k = "sassert" -> Stm(<<>>, env)
    [] n.k = "const" ->
         LET e2 == AnStmt(n, env, 2, X.S, X.C).env
             d == TrConst(n.name, e2[n.name].v[1], X.o)
         IN IF ~X.o.c23 THEN Stm(<<>>, e2) ELSE IF ~d.ok THEN d ELSE Stm(<<d.n>>, e2)
    [] n.k = "let" ->
         LET e2 == AnStmt(n, env, 2, X.S, X.C).env
             t == VarType(e2[n.name].t, X.o)
             x == IF ~t.ok THEN t ELSE TrEs(n.init, 1, env, X, <<>>)
         IN IF ~x.ok THEN x ELSE Stm(<<TVar("", t.n, n.name, x.n)>>, e2)
    [] n.k = "assign" -> LET x == TrE(n.x, env, X) IN IF ~x.ok THEN x ELSE Stm(<<TAssign(n.name, x.n)>>, env)
    [] n.k = "callst" -> LET x == TrE(n.x, env, X) IN IF ~x.ok THEN x ELSE Stm(<<TDo(x.n)>>, env)
    [] n.k = "block" -> LET b == TrB(n.body, 1, env, X, <<>>) IN IF ~b.ok THEN b ELSE Stm(<<TBlock(b.n)>>, env)
    [] n.k = "if" ->
         LET c == TrE(n.c, env, X)
             t == IF c.ok THEN TrB(n.then.body, 1, env, X, <<>>) ELSE c
             e == IF ~t.ok THEN t ELSE IF n.else = <<>> THEN Stm(<<>>, env) ELSE TrS(n.else[1], env, X)
         IN IF ~e.ok THEN e ELSE Stm(<<TIf(c.n, TBlock(t.n), e.n)>>, env)
    [] n.k = "while" ->
         LET c == TrE(n.c, env, X)
             b == IF c.ok THEN TrB(n.body.body, 1, env, X, <<>>) ELSE c
         IN IF ~b.ok THEN b ELSE Stm(<<TWhile(c.n, TBlock(b.n))>>, env)
    [] n.k \in {"break", "continue"} -> Stm(<<n.k \o ";">>, env)
    [] n.k = "return" -> LET x == TrEs(n.x, 1, env, X, <<>>) IN IF ~x.ok THEN x ELSE Stm(<<TReturn(x.n)>>, env)
TrBF == [a \in Any |-> TrBB(a[1], a[2], a[3], a[4], a[5])]
TrB(ns, i, env, X, acc) == TrBF[<<ns, i, env, X, acc>>]
TrBB(ns, i, env, X, acc) == IF i > Len(ns) THEN Tr(acc)
                            ELSE LET s == TrS(ns[i], env, X) IN IF ~s.ok THEN s ELSE TrB(ns, i + 1, s.env, X, acc \o s.n)
\* declarations
RECURSIVE TrParams(_, _, _, _, _), TrDecls(_, _, _, _), TrDeclsB(_, _, _, _), TrDeclsF
TrParams(f, sig, i, o, acc) ==
  IF i > Len(f.params) THEN Tr(acc)
  ELSE LET t == VarType(sig.ps[i], o) IN IF ~t.ok THEN t ELSE TrParams(f, sig, i + 1, o, Append(acc, TParam(t.n, f.params[i].name)))
TrFunction(f, X) ==
  LET sig == X.S.sig[f.name]
      env == [n \in {f.params[i].name : i \in 1..Len(f.params)} |->
                LET i == CHOOSE j \in 1..Len(f.params) : f.params[j].name = n IN BParam(f.params[i].l, n, sig.ps[i])] @@ X.C.P.env
      r == TypeIn(sig.ret, X.o)
      ps == IF r.ok THEN TrParams(f, sig, 1, X.o, <<>>) ELSE r
      C2 == [X.C EXCEPT !.f = f.name, !.key = f.name, !.stk = {f.name}, !.ret = sig.ret, !.rl = f.ret.l, !.loop = TRUE]
      b == IF ps.ok THEN TrB(f.body.body, 1, env, [X EXCEPT !.C = C2], <<>>) ELSE ps
  IN IF ~b.ok THEN b ELSE Tr(TFun(r.n, f.name, ps.n, TBlock(b.n)))
TrDecl(d, X) ==
  CASE d.k = "sassert" -> Stm(<<>>, <<>>)
    [] d.k = "const" -> IF ~X.o.c23 THEN Stm(<<>>, <<>>)
                        ELSE LET c == TrConst(d.name, X.S.gv[d.name], X.o) IN IF ~c.ok THEN c ELSE Stm(<<c.n>>, <<>>)
    [] d.k = "function" -> IF X.C.P.gen[d.name] # <<>> THEN Stm(<<>>, <<>>)
                           ELSE LET f == TrFunction(d, X) IN IF ~f.ok THEN f ELSE Stm(<<f.n>>, <<>>)
TrDeclsF == [a \in Any |-> TrDeclsB(a[1], a[2], a[3], a[4])]
TrDecls(ds, i, X, acc) == TrDeclsF[<<ds, i, X, acc>>]
TrDeclsB(ds, i, X, acc) == IF i > Len(ds) THEN Tr(acc)
                           ELSE LET d == TrDecl(ds[i], X) IN IF ~d.ok THEN d ELSE TrDecls(ds, i + 1, X, acc \o d.n)
\* ds: an accepted program, S: what its analysis ended in
Translation(ds, S, o) ==
  TrDecls(ds, 1, [S |-> S, o |-> o,
                  C |-> [P |-> ProgramOf(ds), f |-> "", key |-> "", ws |-> <<>>, stk |-> {}, ret |-> TVoid, rl |-> 0, loop |-> FALSE]], <<>>)
=============================================================================
