------------------------------- MODULE MC_Names -------------------------------
(* Every program of bounded size over few names.  Scoping is described once    *)
(* more, on the sequence of words: what every occurrence of a name is and what *)
(* is visible there.  Names.tla must find the same first violation.            *)
EXTENDS Derive
CONSTANTS Ids, Forms
G == [P |-> {Pr(0, <<"D">>), Pr(0, <<"D", "P">>)},
      D |-> {Pr(1, <<"const", "N", "=", "E", ";">>), Pr(1, <<"function", "N", "(", "A", ")", "->", "Int", "{", "B", "}">>)}
            \cup (IF "static_assert" \in Forms THEN {Pr(1, <<"static_assert", "(", "E", ")", ";">>)} ELSE {}),
      A |-> {Pr(0, <<>>), Pr(1, <<"N", ":", "Int">>)}
            \cup (IF "width" \in Forms THEN {Pr(1, <<"N", ":", "Uint", "(", "N", ")">>)} ELSE {})
            \cup (IF "two" \in Forms THEN {Pr(2, <<"N", ":", "Int", ",", "N", ":", "Bool">>)} ELSE {}),
      B |-> {Pr(0, <<>>), Pr(0, <<"S", "B">>)},
      S |-> {Pr(1, <<"let", "N", "=", "E", ";">>), Pr(1, <<"N", "=", "E", ";">>), Pr(1, <<"{", "B", "}">>)}
            \cup (IF "open" \in Forms THEN {Pr(1, <<"let", "N", ":", "Int", ";">>)} ELSE {})
            \cup (IF "if" \in Forms THEN {Pr(1, <<"if", "E", "{", "B", "}", "else", "{", "B", "}">>)} ELSE {})
            \cup (IF "while" \in Forms THEN {Pr(1, <<"while", "E", "{", "B", "}">>)} ELSE {})
            \cup (IF "call" \in Forms THEN {Pr(1, <<"N", "(", "E", ")", ";">>)} ELSE {})
            \cup (IF "return" \in Forms THEN {Pr(1, <<"return", "E", ";">>)} ELSE {}),
      E |-> {Pr(0, <<"1">>), Pr(0, <<"N">>)},
      N |-> OneOf(Ids)]
Table == [w \in Terminals(G) |-> TokenOf(w)] @@ NoFcn
LeastG == Least(G)
Init == Begin(G, <<"P">>)
Next == Derivation(G, LeastG)
Spec == Init /\ [][Next]_derived

\* ---- scopes on the words
W(i) == IF i \in 1..Len(done) THEN done[i] ELSE ""
Depth(i) == Cardinality({j \in 1..i : done[j] = "{"}) - Cardinality({j \in 1..i : done[j] = "}"})
Occurrences == {i \in 1..Len(done) : done[i] \in Ids}
\* the word that begins the declaration or the function that i is in
Function(i) == LET fs == {j \in 1..i : done[j] = "function" /\ \A k \in j..i : done[k] # "}" \/ Depth(k) > 0}
               IN IF fs = {} THEN 0 ELSE CHOOSE j \in fs : \A k \in fs : k <= j
Role(i) == CASE W(i - 1) = "function" -> "function"
             [] W(i - 1) = "const" -> "global"
             [] W(i - 1) = "let" -> "local"
             [] W(i + 1) = ":" -> "parameter"
             [] W(i - 1) = "(" /\ W(i - 2) = "Uint" -> "width"
             [] W(i + 1) = "(" -> "call"
             [] W(i + 1) = "=" -> "assignment"
             [] OTHER -> "use"
Code == [function |-> "failed_to_define_function", global |-> "failed_to_define_global_const", local |-> "failed_to_define_variable",
         parameter |-> "failed_to_define_parameter", call |-> "call_to_undefined_function", assignment |-> "assignment_of_undefined_variable",
         use |-> "reference_to_undefined_variable"]
GlobalAt(i) == Role(i) \in {"function", "global"}
\* whether the declaration at d is visible at i (d # i)
Visible(d, i) ==
  CASE GlobalAt(d) -> (IF GlobalAt(i) THEN d < i ELSE TRUE)
    [] Role(d) \in {"parameter", "width"} -> d < i /\ Function(d) = Function(i) /\ Function(i) # 0
    [] Role(d) = "local" -> d < i /\ Function(d) = Function(i) /\ \A k \in d..i : Depth(k) >= Depth(d)
    [] OTHER -> FALSE
Seen(i) == \E d \in Occurrences : d # i /\ done[d] = done[i] /\ Visible(d, i)
BadAt(i) == CASE Role(i) \in {"function", "global", "local", "parameter"} -> Seen(i)
              [] Role(i) = "width" -> FALSE
              [] OTHER -> ~Seen(i)
\* the names of the program come first, then everything else in order
First(s) == CHOOSE i \in s : \A j \in s : i <= j
FirstBad == LET g == {i \in Occurrences : GlobalAt(i) /\ BadAt(i)}
                o == {i \in Occurrences : BadAt(i)}
            IN IF g # {} THEN First(g) ELSE IF o # {} THEN First(o) ELSE 0
\* lines: every word is on a line of its own
Placed == [i \in 1..Len(done) |-> [Table[done[i]] EXCEPT !.b = i, !.l = i]]
Scoped ==
  Complete =>
    LET p == PProgram(<<>> \o Placed)
        v == NmProgram(p.n)
        b == FirstBad
    IN p.ok /\ (IF b = 0 THEN v = Fine ELSE v # Fine /\ v[1].code = Code[Role(b)])
\* names do not matter
Renamed(f) == <<>> \o [i \in 1..Len(done) |-> [Table[IF done[i] \in Ids THEN f[done[i]] ELSE done[i]] EXCEPT !.b = i, !.l = i]]
Verdict(ts) == LET c == Compile(PProgram(ts).n) IN IF c.ok THEN "ok" ELSE c.e
Anonymous == Complete => LET v == Verdict(Placed) IN \A f \in Permutations(Ids) : Verdict(Renamed(f)) = v
Told == Complete => PrintT("SEQ" \o Joined(done, 1))
=============================================================================
