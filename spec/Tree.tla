-------------------------------- MODULE Tree --------------------------------
(* The syntax tree as a string, to compare it with what was recorded.          *)
EXTENDS Grammar, TLC
RECURSIVE ByteStr(_, _)
ByteStr(v, i) == IF i > Len(v) THEN "" ELSE ToString(v[i]) \o "." \o ByteStr(v, i + 1)
RECURSIVE Show(_), ShowB(_), ShowF, ShowAll(_, _), ShowAllB(_, _), ShowAllF
Sp(n) == " " \o Show(n)
ShowAllF == [a \in Any |-> ShowAllB(a[1], a[2])]
ShowAll(ns, i) == ShowAllF[<<ns, i>>]
ShowAllB(ns, i) == IF i > Len(ns) THEN "" ELSE Sp(ns[i]) \o ShowAll(ns, i + 1)
Opt(o) == IF o = <<>> THEN " _" ELSE Sp(o[1])
List(ns) == " [" \o ShowAll(ns, 1) \o "]"
CallSt(n, k) == "(" \o k \o " " \o ToString(n.l) \o " " \o n.name \o List(n.ann) \o ShowAll(n.args, 1) \o ")"
ShowF == [a \in Any |-> ShowB(a[1])]
Show(n) == ShowF[<<n>>]
ShowB(n) ==
  IF n.k = "callst" THEN CallSt(n.x, "callst")
  ELSE IF n.k = "call" THEN CallSt(n, "call")
  ELSE "(" \o n.k \o " " \o ToString(n.l) \o
    (CASE n.k \in {"bin", "un"} -> " " \o n.op \o Sp(n.x) \o (IF n.k = "bin" THEN Sp(n.y) ELSE "")
       [] n.k = "id" -> " " \o n.name
       [] n.k = "int" -> " #" \o ByteStr(n.v, 1)
       [] n.k = "bool" -> IF n.v THEN " true" ELSE " false"
       [] n.k = "conv" -> Sp(n.x) \o Sp(n.ty)
       [] n.k = "ife" -> Sp(n.x) \o Sp(n.c) \o Sp(n.y)
       [] n.k = "type" -> " " \o n.t \o Opt(n.w)
       [] n.k = "ann" -> " " \o n.name \o ShowAll(n.args, 1)
       [] n.k = "arg" -> " " \o (IF n.key = "" THEN "-" ELSE n.key) \o " " \o n.t \o " #" \o ByteStr(n.v, 1)
       [] n.k \in {"const", "let"} -> " " \o n.name \o List(n.ann) \o Opt(n.ty) \o Opt(n.init)
       [] n.k = "sassert" -> Sp(n.x)
       [] n.k = "assign" -> " " \o n.name \o List(n.ann) \o Sp(n.x)
       [] n.k = "if" -> List(n.ann) \o Sp(n.c) \o Sp(n.then) \o Opt(n.else)
       [] n.k = "while" -> List(n.ann) \o Sp(n.c) \o Sp(n.body)
       [] n.k \in {"break", "continue"} -> ""
       [] n.k = "return" -> Opt(n.x)
       [] n.k = "block" -> ShowAll(n.body, 1)
       [] n.k = "param" -> " " \o n.name \o Sp(n.ty)
       [] n.k = "function" -> " " \o n.name \o List(n.ann) \o List(n.params) \o Sp(n.ret) \o Opt(n.req) \o Sp(n.body))
    \o ")"
ShowProgram(nodes) == "(program" \o ShowAll(nodes, 1) \o ")"
=============================================================================
