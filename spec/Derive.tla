------------------------------- MODULE Derive -------------------------------
(* Texts of a bounded size, as a machine: a state is a partly derived sequence *)
(* of words, done the words so far, todo the symbols still to be derived, left *)
(* what may still be spent.  The rules G are a function from nonterminals to   *)
(* sets of productions [r |-> symbols, c |-> cost].  A derivation is complete  *)
(* when todo is empty.                                                         *)
EXTENDS Lang
CONSTANTS Size
VARIABLES done, todo, left
derived == <<done, todo, left>>

RECURSIVE SumOf(_, _, _), Leasts(_, _, _), SkipTerminals(_, _, _)
SumOf(s, i, m) == IF i > Len(s) THEN 0 ELSE (IF s[i] \in DOMAIN m THEN m[s[i]] ELSE 0) + SumOf(s, i + 1, m)
Smallest(s) == CHOOSE x \in s : \A y \in s : x <= y
\* what every nonterminal costs at least
Leasts(G, m, n) == IF n = 0 THEN m
                   ELSE Leasts(G, [k \in DOMAIN G |-> Smallest({p.c + SumOf(p.r, 1, m) : p \in G[k]})] @@ m, n - 1)
Least(G) == Leasts(G, [k \in DOMAIN G |-> 99], Cardinality(DOMAIN G))
\* moves the terminals at the beginning of todo
SkipTerminals(G, d, t) == IF t # <<>> /\ t[1] \notin DOMAIN G THEN SkipTerminals(G, Append(d, t[1]), Tail(t)) ELSE <<d, t>>
Begin(G, start) == LET s == SkipTerminals(G, <<>>, start) IN done = s[1] /\ todo = s[2] /\ left = Size
Derivation(G, least) ==
  /\ todo # <<>>
  /\ \E p \in G[todo[1]] :
       LET rest == p.r \o Tail(todo)
           s == SkipTerminals(G, done, rest)
       IN /\ p.c + SumOf(rest, 1, least) <= left
          /\ left' = left - p.c /\ done' = s[1] /\ todo' = s[2]
Complete == todo = <<>>

\* words as tokens
TokenOf(w) == LET c == Codes(w)
                  t == Tokenize(c).toks[1]
              IN [t |-> t.t, l |-> 0, b |-> 0, s |-> TokText(c, t), v |-> LitText(c, t)]
RECURSIVE Terminals(_)
Terminals(G) == (UNION {UNION {{p.r[i] : i \in 1..Len(p.r)} : p \in G[k]} : k \in DOMAIN G}) \ DOMAIN G
AsTokens(ws, table) == <<>> \o [i \in 1..Len(ws) |-> [table[ws[i]] EXCEPT !.b = i]]
RECURSIVE Joined(_, _)
Joined(ws, i) == IF i > Len(ws) THEN "" ELSE " " \o ws[i] \o Joined(ws, i + 1)
\* helpers for rules
Pr(c, r) == [c |-> c, r |-> r]
OneOf(ws) == {Pr(0, <<w>>) : w \in ws}
=============================================================================
