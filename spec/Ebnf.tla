-------------------------------- MODULE Ebnf --------------------------------
(* The documented grammar (grammar.ebnf) as data, and the set of token         *)
(* sequences it derives, by Earley's sets of items: independent of how the     *)
(* parser works.  An item <<lhs, rhs, dot, from>> is in the set of a position  *)
(* iff it can be used in a derivation that begins with the tokens so far, so a *)
(* sequence can be continued to a sentence iff its last set is not empty.      *)
(* Differences to the file: the semicolon of constants, the comma between      *)
(* annotation arguments and the name declaration = program_declaration, which  *)
(* it leaves out.                                                              *)
EXTENDS Naturals, Sequences
LOCAL INSTANCE FiniteSets
Tok(s) == {<<t>> : t \in s}                       \* one of these tokens
Rules == [
  program |-> {<<"declaration">>, <<"declaration", "program">>},
  declaration |-> {<<"const_declaration">>, <<"function_declaration">>, <<"static_assertion">>},
  annotations |-> {<<>>, <<"annotation_sequence">>},
  of_type |-> {<<>>, <<"colon", "type">>},
  const_declaration |-> {<<"annotations", "keyword_const", "identifier", "of_type", "initializer", "semicolon">>},
  let_declaration |-> {<<"annotations", "keyword_let", "identifier", "colon", "type", "semicolon">>,
                       <<"annotations", "keyword_let", "identifier", "of_type", "initializer", "semicolon">>},
  initializer |-> {<<"assign", "expression">>},
  function_declaration |-> {<<"annotations", "keyword_function", "identifier", "function_header", "block_statement">>},
  function_header |-> {<<"left_parenthesis", "parameters", "right_parenthesis", "right_arrow", "type", "requires_clause">>},
  requires_clause |-> {<<>>, <<"keyword_requires", "expression">>},
  parameters |-> {<<>>, <<"parameter_sequence">>},
  parameter_sequence |-> {<<"parameter">>, <<"parameter", "comma", "parameter_sequence">>},
  parameter |-> {<<"identifier", "colon", "type">>},
  static_assertion |-> {<<"keyword_static_assert", "parenthesized_expression", "semicolon">>},
  annotation_sequence |-> {<<"annotation">>, <<"annotation", "annotation_sequence">>},
  annotation |-> {<<"at", "identifier">>, <<"at", "identifier", "left_parenthesis", "annotation_arguments", "right_parenthesis">>},
  annotation_arguments |-> {<<>>, <<"annotation_argument_sequence">>},
  annotation_argument_sequence |-> {<<"annotation_argument">>, <<"annotation_argument", "comma", "annotation_argument_sequence">>},
  annotation_argument |-> {<<"literal">>, <<"identifier", "assign", "literal">>},
  statement |-> Tok({"let_declaration", "const_declaration", "static_assertion", "assignment_statement", "function_call_statement",
                     "break_statement", "continue_statement", "return_statement", "if_statement", "while_statement", "block_statement"}),
  assignment_statement |-> {<<"assignment", "semicolon">>},
  function_call_statement |-> {<<"function_call_expression", "semicolon">>},
  assignment |-> {<<"annotations", "identifier", "assign", "expression">>},
  break_statement |-> {<<"keyword_break", "semicolon">>},
  continue_statement |-> {<<"keyword_continue", "semicolon">>},
  return_statement |-> {<<"keyword_return", "semicolon">>, <<"keyword_return", "expression", "semicolon">>},
  if_statement |-> {<<"annotations", "keyword_if", "expression", "block_statement">>,
                    <<"annotations", "keyword_if", "expression", "block_statement", "else_statement">>},
  else_statement |-> {<<"keyword_else", "if_statement">>, <<"keyword_else", "block_statement">>},
  while_statement |-> {<<"annotations", "keyword_while", "expression", "block_statement">>},
  block_statement |-> {<<"left_brace", "statements", "right_brace">>},
  statements |-> {<<>>, <<"statement", "statements">>},
  expression |-> {<<"conversion_expression">>, <<"if_expression">>},
  conversion_expression |-> {<<"prefix_expression", "keyword_as", "type">>},
  if_expression |-> {<<"binary_expression">>, <<"binary_expression", "keyword_if", "binary_expression", "keyword_else", "if_expression">>},
  binary_expression |-> {<<"comparison_expression">>, <<"prefix_expression">>, <<"prefix_expression", "binary_operator", "prefix_expression">>},
  comparison_expression |-> {<<"arithmetic_expression", "comparison_operator", "arithmetic_expression">>},
  arithmetic_expression |-> {<<"prefix_expression">>, <<"prefix_expression", "arithmetic_operator", "prefix_expression">>},
  prefix_expression |-> {<<"postfix_expression">>, <<"unary_operator", "postfix_expression">>},
  postfix_expression |-> {<<"function_call_expression">>, <<"primary_expression">>},
  function_call_expression |-> {<<"identifier", "left_parenthesis", "arguments", "right_parenthesis", "annotations">>},
  arguments |-> {<<>>, <<"expression_sequence">>},
  expression_sequence |-> {<<"expression">>, <<"expression", "comma", "expression_sequence">>},
  primary_expression |-> {<<"integer_literal">>, <<"boolean_literal">>, <<"identifier">>, <<"parenthesized_expression">>},
  parenthesized_expression |-> {<<"left_parenthesis", "expression", "right_parenthesis">>},
  literal |-> {<<"integer_literal">>, <<"boolean_literal">>, <<"string_literal">>},
  integer_literal |-> Tok({"decimal_literal", "hexadecimal_literal", "binary_literal", "octal_literal"}),
  boolean_literal |-> Tok({"keyword_true", "keyword_false"}),
  binary_operator |-> Tok({"arithmetic_operator", "comparison_operator", "logical_and", "logical_or", "shift_left", "shift_right",
                           "bitwise_and", "bitwise_or", "bitwise_xor"}),
  arithmetic_operator |-> Tok({"plus", "minus", "multiplication", "division", "remainder"}),
  comparison_operator |-> Tok({"equals", "not_equals", "less_than", "greater_than", "less_or_equal", "greater_or_equal"}),
  unary_operator |-> Tok({"plus", "minus", "logical_not", "bitwise_not"}),
  type |-> {<<"keyword_bool">>, <<"keyword_int">>, <<"keyword_void">>, <<"keyword_uint", "parenthesized_expression">>}]
Symbols == DOMAIN Rules
Nullable == {n \in Symbols : <<>> \in Rules[n]}       \* no rule consists of such symbols only
Ended(it) == it[3] = Len(it[2])
Next_(it) == it[2][it[3] + 1]
Advance_(it) == <<it[1], it[2], it[3] + 1, it[4]>>
\* closes the set of items of position j under prediction and completion; prev: the sets of the positions before
RECURSIVE Close(_, _, _, _)
Close(new, done, prev, j) ==
  IF new = {} THEN done
  ELSE LET all == done \cup new
           of(it) ==
             IF Ended(it) THEN {Advance_(p) : p \in {q \in (IF it[4] = j THEN all ELSE prev[it[4] + 1]) : ~Ended(q) /\ Next_(q) = it[1]}}
             ELSE IF Next_(it) \in Symbols
                  THEN {<<Next_(it), r, 0, j>> : r \in Rules[Next_(it)]} \cup (IF Next_(it) \in Nullable THEN {Advance_(it)} ELSE {})
             ELSE {}
       IN Close((UNION {of(it) : it \in new}) \ all, all, prev, j)
\* the sets of positions 0..n after n tokens
Earley0 == <<Close({<<"program", r, 0, 0>> : r \in Rules["program"]}, {}, <<>>, 0)>>
Scan(sets, t) ==
  LET j == Len(sets)
      kernel == {Advance_(it) : it \in {q \in sets[j] : ~Ended(q) /\ Next_(q) = t}}
  IN Append(sets, Close(kernel, {}, sets, j))
Viable(sets) == sets[Len(sets)] # {}
Sentence(sets) == \E it \in sets[Len(sets)] : it[1] = "program" /\ it[4] = 0 /\ Ended(it)
=============================================================================
