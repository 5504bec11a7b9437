------------------------------- MODULE MC_Inst -------------------------------
(* Every use of a generic function, of bounded size: the program must have the *)
(* same verdict and the same constants as the one in which the function was    *)
(* written for the deduced widths, that is, with the widths' names replaced by *)
(* the numbers, one function for each combination of widths.                   *)
EXTENDS Derive
CONSTANTS Leaves, Operators
\* g's result, requires-clause, a statement, and the returned expression; then calls
G == [X |-> {Pr(0, <<"function", "g", "(", "a", ":", "Uint", "(", "N", ")", ",", "b", ":", "Uint", "(", "M", ")", ")", "->", "R", "Q",
                     "{", "S", "return", "E", ";", "}", "CALLS">>)},
      R |-> {Pr(0, <<"Uint", "(", "N", ")">>), Pr(0, <<"Bool">>), Pr(1, <<"Uint", "(", "N", "+", "M", ")">>), Pr(1, <<"Int">>)},
      Q |-> {Pr(0, <<>>), Pr(1, <<"requires", "N", "C", "M">>), Pr(1, <<"requires", "N", "C", "2">>)},
      S |-> {Pr(0, <<>>), Pr(1, <<"static_assert", "(", "N", "C", "M", ")", ";">>), Pr(1, <<"let", "c", ":", "Uint", "(", "M", ")", "=", "E", ";">>),
             Pr(1, <<"const", "c", "=", "N", "-", "M", ";">>), Pr(1, <<"if", "a", "C", "b", "{", "return", "E", ";", "}">>)},
      E |-> OneOf(Leaves) \cup {Pr(1, <<"E2", "O", "E2">>), Pr(1, <<"E2", "as", "Uint", "(", "M", ")">>), Pr(1, <<"h", "(", "E2", ")">>)},
      E2 |-> OneOf(Leaves),
      O |-> OneOf(Operators), C |-> OneOf({"<=", "=="}),
      CALLS |-> {Pr(0, <<"FIRST">>), Pr(1, <<"FIRST", "SECOND">>)},
      FIRST |-> {Pr(0, <<"const", "r", "=", "g", "(", "A", ",", "A", ")", ";">>)},
      SECOND |-> {Pr(0, <<"const", "s", "=", "g", "(", "A", ",", "A", ")", ";">>)},
      A |-> {Pr(0, <<"u2">>), Pr(0, <<"u3">>)}]
\* h is generic as well; u2 and u3 are constants of the widths 2 and 3
Before == <<"const", "u2", "=", "3", "as", "Uint", "(", "2", ")", ";", "const", "u3", "=", "6", "as", "Uint", "(", "3", ")", ";",
            "function", "h", "(", "x", ":", "Uint", "(", "K", ")", ")", "->", "Uint", "(", "K", ")",
            "{", "return", "x", "+", "(", "K", "as", "Uint", "(", "K", ")", ")", ";", "}">>
Extra == {"g22", "g23", "g32", "g33"}
Table == LET ws == Terminals(G) \cup {Before[i] : i \in 1..Len(Before)} \cup Extra IN [w \in ws |-> TokenOf(w)] @@ NoFcn
LeastG == Least(G)
Init == Begin(G, <<"X">>)
Next == Derivation(G, LeastG)
Spec == Init /\ [][Next]_derived

\* the calls: positions of "g" behind the function, with the widths of the arguments
EndOfG == (CHOOSE i \in 1..Len(done) : done[i] = "}" /\ \A j \in i + 1..Len(done) : done[j] # "}")
WidthOf(w) == IF w = "u2" THEN "2" ELSE "3"
Calls == {i \in EndOfG + 1..Len(done) : done[i] = "g"}
Suffix(i) == WidthOf(done[i + 2]) \o WidthOf(done[i + 4])
Instance(s) == <<>> \o [i \in 1..EndOfG |-> CASE done[i] = "g" -> "g" \o s [] done[i] = "N" -> SubSeq(s, 1, 1) [] done[i] = "M" -> SubSeq(s, 2, 2) [] OTHER -> done[i]]
RECURSIVE Instances_(_)
Instances_(ss) == IF ss = {} THEN <<>> ELSE LET s == CHOOSE s \in ss : TRUE IN Instance(s) \o Instances_(ss \ {s})
Rest == <<>> \o [i \in 1..Len(done) - EndOfG |-> IF done[EndOfG + i] = "g" THEN "g" \o Suffix(EndOfG + i) ELSE done[EndOfG + i]]
Written == Instances_({Suffix(i) : i \in Calls}) \o Rest
Verdict(ws) == LET p == PProgram(AsTokens(Before \o ws, Table)) IN IF p.ok THEN Compile(p.n) ELSE [ok |-> FALSE, e |-> Diag("syntax", 0, 0)]
Same ==
  Complete =>
    LET x == Verdict(done)
        y == Verdict(Written)
    IN \/ x.ok /\ y.ok /\ x.S.gv = y.S.gv
       \/ ~x.ok /\ ~y.ok /\ (x.e.code = "skip" \/ y.e.code = "skip" \/ <<x.e.code, x.e.sub, x.e.cmp>> = <<y.e.code, y.e.sub, y.e.cmp>>
          \* of two instances that both fail, another one may be looked at first
          \/ Cardinality({Suffix(i) : i \in Calls}) > 1)
Told == Complete => PrintT("SEQ" \o Joined(done, 1))
=============================================================================
