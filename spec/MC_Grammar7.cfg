SPECIFICATION Spec
CONSTANTS
  Deep = 7
  From = {"top", "expression", "type", "header", "body", "else", "annotation", "call"}
  Kinds = {"identifier", "decimal_literal", "keyword_true", "string_literal", "plus", "multiplication", "logical_not", "equals", "logical_and",
    "left_parenthesis", "right_parenthesis", "left_brace", "right_brace", "comma", "colon", "semicolon", "assign", "at", "right_arrow",
    "keyword_as", "keyword_if", "keyword_else", "keyword_uint", "keyword_int", "keyword_let", "keyword_const", "keyword_static_assert",
    "keyword_function", "keyword_return", "keyword_while", "keyword_break", "keyword_requires"}
INVARIANT ParserFollowsGrammar
CHECK_DEADLOCK FALSE
