------------------------------- MODULE MC_Body -------------------------------
(* Every function body of at most Size statements from a small vocabulary, with *)
(* loops, branches, blocks, calls and assertions.  If it is accepted, then its *)
(* direct execution and the machine executing its code agree for all inputs.   *)
EXTENDS Codegen, Derive
CONSTANTS Simple, Conditions
Actions == [inc |-> <<"x", "=", "x", "+", "1", ";">>, copy |-> <<"x", "=", "a", ";">>, call |-> <<"x", "=", "h", "(", "x", ")", ";">>,
            not |-> <<"y", "=", "!", "y", ";">>, set |-> <<"y", "=", "p", ";">>, zero |-> <<"x", "=", "7", "/", "x", ";">>,
            break |-> <<"break", ";">>, continue |-> <<"continue", ";">>, return |-> <<"return", "2", ";">>, result |-> <<"return", "x", ";">>,
            let |-> <<"let", "z", "=", "x", ";">>, use |-> <<"x", "=", "z", ";">>, open |-> <<"let", "z", ":", "Uint", "(", "2", ")", ";">>,
            const |-> <<"const", "z", "=", "3", ";">>,
            assert |-> <<"assert", "(", "x", "<", "3", ")", ";">>, check |-> <<"static_assert", "(", "z", "==", "3", ")", ";">>]
Tests == [p |-> <<"p">>, y |-> <<"y">>, less |-> <<"x", "<", "3">>, both |-> <<"p", "&&", "(", "x", "<", "2", ")">>]
G == [B |-> {Pr(0, <<>>), Pr(0, <<"S", "B">>)},
      S |-> {Pr(1, Actions[s]) : s \in Simple}
            \cup {Pr(1, <<"if", "Q", "{", "B", "}", "E">>), Pr(1, <<"while", "Q", "{", "B", "}">>), Pr(1, <<"{", "S", "B", "}">>)},
      E |-> {Pr(0, <<>>), Pr(0, <<"else", "{", "S", "B", "}">>), Pr(1, <<"else", "if", "Q", "{", "S", "B", "}", "E">>)},
      Q |-> {Pr(0, Tests[q]) : q \in Conditions}]
Before == <<"function", "h", "(", "u", ":", "Uint", "(", "2", ")", ")", "->", "Uint", "(", "2", ")",
            "{", "let", "x", "=", "u", ";", "if", "x", "==", "0", "{", "return", "3", ";", "}", "x", "=", "x", "-", "1", ";", "return", "x", ";", "}",
            "function", "f", "(", "p", ":", "Bool", ",", "a", ":", "Uint", "(", "2", ")", ")", "->", "Uint", "(", "2", ")",
            "{", "let", "x", "=", "a", ";", "let", "y", ":", "Bool", ";">>
After == <<"return", "x", ";", "}">>
Table == LET ws == Terminals(G) \cup {Before[i] : i \in 1..Len(Before)} \cup {After[i] : i \in 1..Len(After)} IN [w \in ws |-> TokenOf(w)] @@ NoFcn
LeastG == Least(G)
Init == Begin(G, <<"B">>)
Next == Derivation(G, LeastG)
Spec == Init /\ [][Next]_derived
S0 == [gv |-> NoFcn, lv |-> NoFcn, sig |-> NoFcn, code |-> NoFcn, inst |-> NoFcn]
Inputs == {<<VBool(q), Val(TUint(2), IFrom(i))>> : q \in BOOLEAN, i \in {0, 1, 3}}
Tree_ == PProgram(AsTokens(Before \o done \o After, Table))
Checked(ds) ==
  IF NmProgram(ds) # Fine THEN [ok |-> FALSE]
  ELSE LET P == ProgramOf(ds)
           C == [P |-> P, f |-> "", key |-> "", ws |-> <<>>, stk |-> {}, ret |-> TVoid, rl |-> 0, loop |-> FALSE]
       IN AnFn(P.fn["f"], "f", <<>>, 3, S0, C)
Refines ==
  Complete =>
    LET t == Tree_
        g == Checked(t.n)
    IN t.ok /\ (g.ok => \A v \in Inputs : LET x == RunCall("f", v, g.S.code) IN
                                           /\ Agrees(x, Machine(g.S.code, "f", v))
                                           /\ x.r = "v" => x.v.t = TUint(2) /\ WellFormed(x.v))
\* the inputs for which it ends, each as "true0" and so on
Ends(g, q, i) == ~g.ok \/ LET x == RunCall("f", <<VBool(q), Val(TUint(2), IFrom(i))>>, g.S.code) IN x.r # "e" \/ x.d.code # "skip"
RECURSIVE EndsFor(_, _, _)
EndsFor(g, q, i) == IF i > 3 THEN (IF q THEN EndsFor(g, FALSE, 0) ELSE "")
                    ELSE (IF Ends(g, q, i) THEN "," \o (IF q THEN "true" ELSE "false") \o ToString(i) ELSE "") \o EndsFor(g, q, i + 1)
Told == Complete => PrintT("SEQ " \o EndsFor(Checked(Tree_.n), TRUE, 0) \o Joined(done, 1))
=============================================================================
