----------------------------- MODULE MC_Grammar -----------------------------
(* The parser against the grammar: from some beginnings, every sequence of at  *)
(* most Deep further tokens that may still become a sentence, and each of      *)
(* these with one more token of any kind.                                      *)
EXTENDS Grammar, TLC
E == INSTANCE Ebnf
CONSTANTS Deep, Kinds, From
VARIABLES ts, sets, left
vars == <<ts, sets, left>>
Tok_(t, n) == [t |-> t, l |-> 0, b |-> n, s |-> "x", v |-> <<34, 34>>]
Beginnings == [
  top |-> <<>>,
  expression |-> <<"keyword_const", "identifier", "assign">>,
  type |-> <<"keyword_const", "identifier", "colon">>,
  header |-> <<"keyword_function", "identifier">>,
  body |-> <<"keyword_function", "identifier", "left_parenthesis", "right_parenthesis", "right_arrow", "keyword_void", "left_brace">>,
  else |-> <<"keyword_function", "identifier", "left_parenthesis", "right_parenthesis", "right_arrow", "keyword_void", "left_brace",
             "keyword_if", "identifier", "left_brace", "right_brace">>,
  annotation |-> <<"at", "identifier", "left_parenthesis">>,
  call |-> <<"keyword_static_assert", "left_parenthesis", "identifier", "left_parenthesis">>]
RECURSIVE ScanAll(_, _, _)
ScanAll(s, words, i) == IF i > Len(words) THEN s ELSE ScanAll(E!Scan(s, words[i]), words, i + 1)
Init == \E b \in From : /\ ts = [i \in 1..Len(Beginnings[b]) |-> Tok_(Beginnings[b][i], i)]
                        /\ sets = ScanAll(E!Earley0, Beginnings[b], 1) /\ left = Deep
Next == /\ left > 0 /\ E!Viable(sets) /\ left' = left - 1
        /\ \E t \in Kinds : ts' = Append(ts, Tok_(t, Len(ts) + 1)) /\ sets' = E!Scan(sets, t)
Spec == Init /\ [][Next]_vars
\* accepted iff derived; otherwise the error is at the first token behind which nothing could follow
ParserFollowsGrammar ==
  LET p == PProgram(ts) IN
  IF ts = <<>> THEN ~p.ok
  ELSE IF ~E!Viable(sets) THEN ~p.ok /\ p.i = Len(ts)
  ELSE IF E!Sentence(sets) THEN p.ok /\ p.i = Len(ts) + 1
  ELSE ~p.ok /\ p.i = Len(ts) + 1
\* prints the sequences, to replay them (see MC_GrammarGen.cfg)
RECURSIVE Words(_)
Words(i) == IF i > Len(ts) THEN "" ELSE " " \o ts[i].t \o Words(i + 1)
Told == PrintT("SEQ" \o Words(1))
=============================================================================
