------------------------------- MODULE Names -------------------------------
(* What comes before typing: annotations and names.  Both are a walk over the  *)
(* tree that stops at the first violation.  A diagnostic is                    *)
(* [code, sub, fl, cl, cmp]: category, evaluation or execution category, line  *)
(* of the failing construct, line of its cause (-1: a cause without a place,   *)
(* -2: none), and the compared values (<<>> if none).                          *)
EXTENDS Grammar, BigInt, TLC

Diag(code, fl, cl) == [code |-> code, sub |-> "", fl |-> fl, cl |-> cl, cmp |-> <<>>]
NoCause == -2
NoPlace == -1
Fine == <<>>                     \* no violation; otherwise a sequence of one diagnostic
Wrong(code, fl, cl) == <<Diag(code, fl, cl)>>

\* ---- integer literals
DigitValue(c) == IF c >= 97 THEN c - 87 ELSE IF c >= 65 THEN c - 55 ELSE c - 48
RECURSIVE Digits(_, _, _, _), DigitsB(_, _, _, _), DigitsF
DigitsF == [a \in Any |-> DigitsB(a[1], a[2], a[3], a[4])]
Digits(v, i, base, acc) == DigitsF[<<v, i, base, acc>>]
DigitsB(v, i, base, acc) == IF i > Len(v) THEN acc
                           ELSE Digits(v, i + 1, base, NAdd(NMul(acc, <<base>>), NFromNat(DigitValue(v[i]))))
LiteralNat(v) ==
  IF Len(v) > 1 /\ v[1] = 48
  THEN CASE v[2] = 98 -> Digits(v, 3, 2, NZero) [] v[2] = 120 -> Digits(v, 3, 16, NZero) [] OTHER -> Digits(v, 2, 8, NZero)
  ELSE Digits(v, 1, 10, NZero)
Fits128(m) == NCmp(m, NPow2(128)) < 0

\* ---- annotations
AnnKinds == [immutable |-> {"let"}, inline |-> {"let", "call"}, loop_variable |-> {"let"}, loop_step |-> {"assign"},
             unroll |-> {"while"}, c_equivalent |-> {"function"}, java_equivalent |-> {"function"},
             instantiate |-> {"function"}, false_if_unknown |-> {"if"}, remove_if_unused |-> {"function"}]
Param(n, t, opt, ok) == [name |-> n, t |-> t, opt |-> opt, allowed |-> ok]
AnnParams(a) == CASE a = "unroll" -> <<Param("limit", "integer", FALSE, 1..128)>>
                  [] a = "instantiate" -> <<Param("n", "integer", FALSE, 1..128)>>
                  [] a = "java_equivalent" -> <<Param("method", "string", FALSE, {})>>
                  [] a = "c_equivalent" -> <<Param("function", "string", FALSE, {}), Param("include", "string", TRUE, {}),
                                             Param("since", "integer", TRUE, {89, 90, 99, 11, 17, 23, 29})>>
                  [] OTHER -> <<>>
ArgType(t) == IF t \in IntLits THEN "integer" ELSE IF t \in BoolLits THEN "boolean" ELSE "string"
RECURSIVE AnnMatch(_, _, _, _, _), AnnMatchB(_, _, _, _, _), AnnMatchF, FirstFree(_, _, _), ByName(_, _, _)
FirstFree(ps, used, i) == IF i > Len(ps) THEN 0 ELSE IF i \notin used THEN i ELSE FirstFree(ps, used, i + 1)
ByName(ps, n, i) == IF i > Len(ps) THEN 0 ELSE IF ps[i].name = n THEN i ELSE ByName(ps, n, i + 1)
AnnMatchF == [a \in Any |-> AnnMatchB(a[1], a[2], a[3], a[4], a[5])]
AnnMatch(a, ps, i, used, al) == AnnMatchF[<<a, ps, i, used, al>>]
AnnMatchB(a, ps, i, used, al) ==          \* al: line of the annotation
  IF i > Len(a.args)
  THEN IF \E p \in 1..Len(ps) : p \notin used /\ ~ps[p].opt THEN Wrong("annotation_missing_argument", al, NoPlace) ELSE Fine
  ELSE LET g == a.args[i]
           p == IF g.key = "" THEN FirstFree(ps, used, 1) ELSE ByName(ps, g.key, 1)
       IN IF p = 0 THEN Wrong(IF g.key = "" THEN "annotation_too_many_arguments" ELSE "annotation_unknown_parameter", g.l, al)
          ELSE IF p \in used THEN Wrong("annotation_argument_duplicate", g.l, al)
          ELSE IF ps[p].t # ArgType(g.t) THEN Wrong("annotation_argument_wrong_type", g.l, al)
          ELSE LET m == IF ps[p].t = "integer" THEN LiteralNat(g.v) ELSE NZero
               IN IF ~Fits128(m) THEN Wrong("invalid_integer_literal", g.l, NoCause)
                  ELSE IF (IF ps[p].t = "integer" THEN ~NSmall(m) \/ NToNat(m) \notin ps[p].allowed ELSE g.v = <<>>)
                       THEN Wrong("annotation_argument_wrong_value", g.l, al)
                  ELSE AnnMatch(a, ps, i + 1, used \cup {p}, al)
AnnOne(a, kind, cl) ==
  IF a.name \notin DOMAIN AnnKinds THEN Wrong("annotation_unknown", a.l, cl)
  ELSE IF kind \notin AnnKinds[a.name] THEN Wrong("annotation_not_applicable", a.l, cl)
  ELSE IF a.name = "instantiate" /\ a.args = <<>> THEN Wrong("annotation_missing_argument", a.l, NoCause)
  ELSE AnnMatch(a, AnnParams(a.name), 1, {}, a.l)
RECURSIVE AnnList(_, _, _, _), AnnNode(_), AnnNodeB(_), AnnNodeF, AnnNodes(_, _), AnnNodesB(_, _), AnnNodesF
AnnList(as, i, kind, cl) == IF i > Len(as) THEN Fine
                            ELSE LET r == AnnOne(as[i], kind, cl) IN IF r # Fine THEN r ELSE AnnList(as, i + 1, kind, cl)
Children(n) ==
  CASE n.k \in {"const", "let"} -> n.ty \o n.init
    [] n.k = "sassert" -> <<n.x>>
    [] n.k = "assign" -> <<n.x>>
    [] n.k = "if" -> <<n.c, n.then>> \o n.else
    [] n.k = "while" -> <<n.c, n.body>>
    [] n.k = "return" -> n.x
    [] n.k = "block" -> n.body
    [] n.k = "callst" -> n.x.args
    [] n.k = "call" -> n.args
    [] n.k = "bin" -> <<n.x, n.y>>
    [] n.k = "un" -> <<n.x>>
    [] n.k = "conv" -> <<n.x, n.ty>>
    [] n.k = "ife" -> <<n.x, n.c, n.y>>
    [] n.k = "type" -> n.w
    [] n.k = "param" -> <<n.ty>>
    [] n.k = "function" -> n.params \o <<n.ret>> \o n.req \o <<n.body>>
    [] OTHER -> <<>>
OwnAnns(n) == IF n.k \in {"const", "let", "assign", "if", "while", "call", "function"} THEN n.ann
              ELSE IF n.k = "callst" THEN n.x.ann ELSE <<>>
AnnNodeF == [a \in Any |-> AnnNodeB(a[1])]
AnnNode(n) == AnnNodeF[<<n>>]
AnnNodeB(n) == LET r == AnnList(OwnAnns(n), 1, IF n.k = "callst" THEN "call" ELSE n.k, n.l)
              IN IF r # Fine THEN r ELSE AnnNodes(Children(n), 1)
AnnNodesF == [a \in Any |-> AnnNodesB(a[1], a[2])]
AnnNodes(ns, i) == AnnNodesF[<<ns, i>>]
AnnNodesB(ns, i) == IF i > Len(ns) THEN Fine ELSE LET r == AnnNode(ns[i]) IN IF r # Fine THEN r ELSE AnnNodes(ns, i + 1)

\* ---- names.  env: names in scope -> line of their declaration (0-based; -1 for the builtin function)
\* No declaration may reuse a name in scope.
Builtins == "assert" :> NoPlace
RECURSIVE NmGlobals(_, _, _), NmGlobalsB(_, _, _), NmGlobalsF, NmExpr(_, _), NmExprB(_, _), NmExprF, NmExprs(_, _, _), NmExprsB(_, _, _), NmExprsF, NmStmts(_, _, _), NmStmtsB(_, _, _), NmStmtsF, NmStmt(_, _), NmStmtB(_, _), NmStmtF, NmParams(_, _, _), NmParamsB(_, _, _), NmParamsF
NmGlobalsF == [a \in Any |-> NmGlobalsB(a[1], a[2], a[3])]
NmGlobals(ds, i, env) == NmGlobalsF[<<ds, i, env>>]
NmGlobalsB(ds, i, env) ==             \* [bad, env]
  IF i > Len(ds) THEN [bad |-> Fine, env |-> env]
  ELSE LET d == ds[i] IN
       IF d.k = "sassert" THEN NmGlobals(ds, i + 1, env)
       ELSE IF d.name \in DOMAIN env
            THEN [bad |-> Wrong(IF d.k = "const" THEN "failed_to_define_global_const" ELSE "failed_to_define_function",
                                d.l, env[d.name]), env |-> env]
       ELSE NmGlobals(ds, i + 1, env @@ (d.name :> d.l))
NmExprF == [a \in Any |-> NmExprB(a[1], a[2])]
NmExpr(n, env) == NmExprF[<<n, env>>]
NmExprB(n, env) ==
  CASE n.k = "id" -> IF n.name \in DOMAIN env THEN Fine ELSE Wrong("reference_to_undefined_variable", n.l, NoCause)
    [] n.k = "call" -> IF n.name \notin DOMAIN env THEN Wrong("call_to_undefined_function", n.l, NoCause)
                       ELSE NmExprs(n.args, 1, env)
    [] OTHER -> NmExprs(Children(n), 1, env)
NmExprsF == [a \in Any |-> NmExprsB(a[1], a[2], a[3])]
NmExprs(ns, i, env) == NmExprsF[<<ns, i, env>>]
NmExprsB(ns, i, env) == IF i > Len(ns) THEN Fine
                       ELSE LET r == NmExpr(ns[i], env) IN IF r # Fine THEN r ELSE NmExprs(ns, i + 1, env)
\* one statement: [bad, env behind it]
NmStmtF == [a \in Any |-> NmStmtB(a[1], a[2])]
NmStmt(n, env) == NmStmtF[<<n, env>>]
NmStmtB(n, env) ==
  LET same(b) == [bad |-> b, env |-> env] IN
  CASE n.k \in {"const", "let"} ->
         IF n.name \in DOMAIN env THEN same(Wrong("failed_to_define_variable", n.l, env[n.name]))
         ELSE LET e2 == env @@ (n.name :> n.l) IN [bad |-> NmExprs(Children(n), 1, e2), env |-> e2]
    [] n.k = "assign" -> same(IF n.name \notin DOMAIN env THEN Wrong("assignment_of_undefined_variable", n.l, NoCause)
                              ELSE NmExpr(n.x, env))
    [] n.k = "callst" -> same(NmExpr(n.x, env))
    [] n.k = "block" -> same(NmStmts(n.body, 1, env))
    [] n.k = "while" -> LET c == NmExpr(n.c, env) IN same(IF c # Fine THEN c ELSE NmStmts(n.body.body, 1, env))
    [] n.k = "if" ->
         LET c == NmExpr(n.c, env)
             t == IF c # Fine THEN c ELSE NmStmts(n.then.body, 1, env)
         IN same(IF t # Fine \/ n.else = <<>> THEN t ELSE NmStmt(n.else[1], env).bad)
    [] OTHER -> same(NmExprs(Children(n), 1, env))
NmStmtsF == [a \in Any |-> NmStmtsB(a[1], a[2], a[3])]
NmStmts(ns, i, env) == NmStmtsF[<<ns, i, env>>]
NmStmtsB(ns, i, env) ==
  IF i > Len(ns) THEN Fine
  ELSE LET r == NmStmt(ns[i], env) IN IF r.bad # Fine THEN r.bad ELSE NmStmts(ns, i + 1, r.env)
\* a parameter whose width is an undeclared name declares that name
NmParamsF == [a \in Any |-> NmParamsB(a[1], a[2], a[3])]
NmParams(ps, i, env) == NmParamsF[<<ps, i, env>>]
NmParamsB(ps, i, env) ==
  IF i > Len(ps) THEN [bad |-> Fine, env |-> env]
  ELSE LET p == ps[i] IN
       IF p.name \in DOMAIN env THEN [bad |-> Wrong("failed_to_define_parameter", p.l, env[p.name]), env |-> env]
       ELSE LET e2 == env @@ (p.name :> p.l)
                w == p.ty.w
            IN IF w = <<>> THEN NmParams(ps, i + 1, e2)
               ELSE IF w[1].k = "id"
                    THEN NmParams(ps, i + 1, IF w[1].name \in DOMAIN e2 THEN e2 ELSE e2 @@ (w[1].name :> w[1].l))
               ELSE LET r == NmExpr(w[1], e2) IN IF r # Fine THEN [bad |-> r, env |-> e2] ELSE NmParams(ps, i + 1, e2)
NmFunction(f, env) ==
  LET p == NmParams(f.params, 1, env)
      h == IF p.bad # Fine THEN p.bad ELSE NmExprs(<<f.ret>> \o f.req, 1, p.env)
  IN IF h # Fine THEN h ELSE NmStmts(f.body.body, 1, p.env)
RECURSIVE NmDecls(_, _, _), NmDeclsB(_, _, _), NmDeclsF
NmDeclsF == [a \in Any |-> NmDeclsB(a[1], a[2], a[3])]
NmDecls(ds, i, env) == NmDeclsF[<<ds, i, env>>]
NmDeclsB(ds, i, env) ==
  IF i > Len(ds) THEN Fine
  ELSE LET d == ds[i]
           r == IF d.k = "function" THEN NmFunction(d, env) ELSE NmExprs(Children(d), 1, env)
       IN IF r # Fine THEN r ELSE NmDecls(ds, i + 1, env)
NmProgram(ds) == LET g == NmGlobals(ds, 1, Builtins) IN IF g.bad # Fine THEN g.bad ELSE NmDecls(ds, 1, g.env)
AnnProgram(ds) == AnnNodes(ds, 1)

\* the positions of the parameters of f that declare a width, given the names of the program
RECURSIVE GenericAt(_, _, _, _)
GenericAt(f, names, i, seen) ==
  IF i > Len(f.params) THEN <<>>
  ELSE LET p == f.params[i]
           s == seen \cup {p.name}
       IN IF p.ty.w # <<>> /\ p.ty.w[1].k = "id" /\ p.ty.w[1].name \notin (names \cup s)
          THEN <<i>> \o GenericAt(f, names, i + 1, s \cup {p.ty.w[1].name})
          ELSE GenericAt(f, names, i + 1, s)
=============================================================================
