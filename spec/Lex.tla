-------------------------------- MODULE Lex --------------------------------
(* The tokenizer as a machine that moves a cursor [pos, line, col] (0-based)   *)
(* over the source, a sequence of byte values.  A token is                     *)
(* [t |-> type, b |-> begin offset, n |-> length, l |-> line, c |-> column].   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* Remark.  TLC evaluates the body of an operator among all names that are bound where it is called, so
\* deep recursion makes every name slow to look up.  The functions over Any below, whose bodies start
\* afresh, only serve to avoid that.

At(src, p) == IF p < Len(src) THEN src[p + 1] ELSE -1       \* -1: past the end
IsDigit(c) == c >= 48 /\ c <= 57
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsIdStart(c) == IsLetter(c) \/ c = 95
IsIdChar(c) == IsIdStart(c) \/ IsDigit(c)
IsSpace(c) == c \in {32, 9, 13, 10}
IsBin(c) == c = 48 \/ c = 49
IsOct(c) == c >= 48 /\ c <= 55
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)

\* characters as strings, to compare words with keywords and to name things
Printable == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@",
  "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T",
  "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`",
  "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t",
  "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>
Char(c) == IF c >= 32 /\ c <= 126 THEN Printable[c - 31] ELSE "?"
CodeOf == [s \in {Printable[i] : i \in 1..Len(Printable)} |-> (CHOOSE i \in 1..Len(Printable) : Printable[i] = s) + 31]
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
RECURSIVE Word(_, _, _)                                     \* the text of [p, e)
Word(src, p, e) == IF p >= e THEN "" ELSE Char(src[p + 1]) \o Word(src, p + 1, e)

Keywords == [as |-> "keyword_as", if |-> "keyword_if", else |-> "keyword_else", let |-> "keyword_let",
  const |-> "keyword_const", Int |-> "keyword_int", Uint |-> "keyword_uint", Bool |-> "keyword_bool",
  Void |-> "keyword_void", while |-> "keyword_while", break |-> "keyword_break",
  continue |-> "keyword_continue", return |-> "keyword_return", function |-> "keyword_function",
  true |-> "keyword_true", false |-> "keyword_false", requires |-> "keyword_requires",
  static_assert |-> "keyword_static_assert"]

Advance1(st, c) ==
  CASE c = 9 -> [st EXCEPT !.pos = @ + 1, !.col = @ + 4]
    [] c = 13 -> [st EXCEPT !.pos = @ + 1, !.col = 0]
    [] c = 10 -> [pos |-> st.pos + 1, line |-> st.line + 1, col |-> 0]
    [] OTHER -> [st EXCEPT !.pos = @ + 1, !.col = @ + 1]
RECURSIVE AdvanceTo(_, _, _)
AdvanceTo(src, st, e) == IF st.pos >= e THEN st ELSE AdvanceTo(src, Advance1(st, src[st.pos + 1]), e)
RECURSIVE SkipSpace(_, _)
SkipSpace(src, st) == IF st.pos < Len(src) /\ IsSpace(src[st.pos + 1])
                      THEN SkipSpace(src, Advance1(st, src[st.pos + 1])) ELSE st

\* first position >= p where the predicate fails
RECURSIVE EndOfId(_, _)
EndOfId(src, p) == IF p < Len(src) /\ IsIdChar(src[p + 1]) THEN EndOfId(src, p + 1) ELSE p
RECURSIVE EndOfDigits(_, _, _)
EndOfDigits(src, p, base) ==
  IF p < Len(src) /\ (CASE base = 2 -> IsBin(src[p+1]) [] base = 8 -> IsOct(src[p+1])
                        [] base = 10 -> IsDigit(src[p+1]) [] base = 16 -> IsHex(src[p+1]))
  THEN EndOfDigits(src, p + 1, base) ELSE p
RECURSIVE EndOfLine(_, _)
EndOfLine(src, p) == IF p < Len(src) /\ src[p + 1] # 10 THEN EndOfLine(src, p + 1) ELSE p
RECURSIVE EndOfBlock(_, _)                                  \* -1: not terminated
EndOfBlock(src, p) == IF p + 1 >= Len(src) THEN -1
                      ELSE IF src[p + 1] = 42 /\ src[p + 2] = 47 THEN p + 2 ELSE EndOfBlock(src, p + 1)
RECURSIVE EndOfString(_, _)
EndOfString(src, p) == IF p >= Len(src) THEN -1
                       ELSE IF src[p + 1] = 92 THEN EndOfString(src, p + 2)
                       ELSE IF src[p + 1] = 34 THEN p + 1 ELSE EndOfString(src, p + 1)

Fixed(c, d) ==                         \* <<type, length>> of the symbol starting with c, d
  CASE c = 40 -> <<"left_parenthesis", 1>> [] c = 41 -> <<"right_parenthesis", 1>>
    [] c = 123 -> <<"left_brace", 1>> [] c = 125 -> <<"right_brace", 1>>
    [] c = 61 /\ d = 61 -> <<"equals", 2>> [] c = 61 /\ d = 62 -> <<"double_right_arrow", 2>>
    [] c = 61 -> <<"assign", 1>>
    [] c = 43 -> <<"plus", 1>> [] c = 45 /\ d = 62 -> <<"right_arrow", 2>> [] c = 45 -> <<"minus", 1>>
    [] c = 42 -> <<"multiplication", 1>> [] c = 47 -> <<"division", 1>> [] c = 37 -> <<"remainder", 1>>
    [] c = 60 /\ d = 60 -> <<"shift_left", 2>> [] c = 60 /\ d = 61 -> <<"less_or_equal", 2>>
    [] c = 60 -> <<"less_than", 1>>
    [] c = 62 /\ d = 62 -> <<"shift_right", 2>> [] c = 62 /\ d = 61 -> <<"greater_or_equal", 2>>
    [] c = 62 -> <<"greater_than", 1>>
    [] c = 38 /\ d = 38 -> <<"logical_and", 2>> [] c = 38 -> <<"bitwise_and", 1>>
    [] c = 124 /\ d = 124 -> <<"logical_or", 2>> [] c = 124 -> <<"bitwise_or", 1>>
    [] c = 94 -> <<"bitwise_xor", 1>> [] c = 126 -> <<"bitwise_not", 1>>
    [] c = 33 /\ d = 61 -> <<"not_equals", 2>> [] c = 33 -> <<"logical_not", 1>>
    [] c = 58 -> <<"colon", 1>> [] c = 59 -> <<"semicolon", 1>> [] c = 46 -> <<"dot", 1>>
    [] c = 44 -> <<"comma", 1>> [] c = 64 -> <<"at", 1>>
    [] OTHER -> <<"", 0>>

\* what starts at the cursor (not at whitespace): <<type, end>>, or <<"!" , code, offset of the error>>
Match(src, p) ==
  LET c == At(src, p)
      d == At(src, p + 1)
  IN CASE c = 47 /\ d = 47 -> <<"line_comment", EndOfLine(src, p + 2)>>
       [] c = 47 /\ d = 42 -> LET e == EndOfBlock(src, p + 2)
                              IN IF e < 0 THEN <<"!", "unterminated_comment", 0>> ELSE <<"block_comment", e>>
       [] c = 34 -> LET e == EndOfString(src, p + 1)
                    IN IF e < 0 THEN <<"!", "unterminated_string", 0>> ELSE <<"string_literal", e>>
       [] IsDigit(c) ->
            LET base == IF c = 48 /\ d = 98 THEN 2 ELSE IF c = 48 /\ d = 120 THEN 16 ELSE IF c = 48 THEN 8 ELSE 10
                b == IF base \in {2, 16} THEN p + 2 ELSE p
                e == EndOfDigits(src, b, base)
            IN IF e = b THEN <<"!", "no_digits_following_integer_prefix", 2>>
               ELSE IF IsIdChar(At(src, e)) THEN <<"!", "integer_suffix", e - p>>
               ELSE <<CASE base = 2 -> "binary_literal" [] base = 16 -> "hexadecimal_literal"
                        [] base = 8 /\ e - b > 1 -> "octal_literal" [] OTHER -> "decimal_literal", e>>
       [] IsIdStart(c) -> LET e == EndOfId(src, p)
                              w == Word(src, p, e)
                          IN <<IF w \in DOMAIN Keywords THEN Keywords[w] ELSE "identifier", e>>
       [] OTHER -> LET f == Fixed(c, d)
                   IN IF f[2] = 0 THEN <<"!", "illegal_character", 0>> ELSE <<f[1], p + f[2]>>

\* one step of the machine from a cursor: whitespace, then a token, an error or the end
LexStep(src, st0) ==
  LET st == SkipSpace(src, st0) IN
  IF st.pos >= Len(src) THEN [k |-> "end", next |-> st]
  ELSE LET m == Match(src, st.pos) IN
       IF m[1] = "!" THEN [k |-> "error", e |-> m[2], b |-> st.pos + m[3], l |-> st.line, c |-> st.col + m[3]]
       ELSE [k |-> "token",
             tok |-> [t |-> m[1], b |-> st.pos, n |-> m[2] - st.pos, l |-> st.line, c |-> st.col],
             next |-> AdvanceTo(src, st, m[2])]

Start == [pos |-> 0, line |-> 0, col |-> 0]
RECURSIVE LexAll(_, _, _), LexFrom
LexFrom == [a \in Any |-> LexAll(a[1], a[2], a[3])]
LexAll(src, st, toks) ==
  LET s == LexStep(src, st) IN
  CASE s.k = "end" -> [ok |-> TRUE, toks |-> toks]
    [] s.k = "error" -> [ok |-> FALSE, e |-> s.e, b |-> s.b, l |-> s.l, c |-> s.c]
    [] s.k = "token" -> LexFrom[<<src, s.next, Append(toks, s.tok)>>]
Tokenize(src) == LexAll(src, Start, <<>>)
EndOfTokens(toks) == IF toks = <<>> THEN 0 ELSE toks[Len(toks)].b + toks[Len(toks)].n
LineAt(src, p) == Cardinality({i \in 1..p : src[i] = 10})
=============================================================================
