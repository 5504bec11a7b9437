------------------------------- MODULE MC_Lex -------------------------------
(* The tokenizer machine over all short texts of an alphabet, against a        *)
(* declarative definition of the tokens and of maximal munch.                  *)
EXTENDS Lex, TLC, FiniteSets
CONSTANTS Alphabet, MaxLen
VARIABLES src, cur, toks, status
vars == <<src, cur, toks, status>>
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == src \in Texts /\ cur = Start /\ toks = <<>> /\ status = "run"
Step == LexStep(src, cur)
Token == status = "run" /\ Step.k = "token" /\ toks' = Append(toks, Step.tok) /\ cur' = Step.next /\ UNCHANGED <<src, status>>
Fail == status = "run" /\ Step.k = "error" /\ status' = Step.e /\ UNCHANGED <<src, cur, toks>>
End == status = "run" /\ Step.k = "end" /\ status' = "done" /\ cur' = Step.next /\ UNCHANGED <<src, toks>>
Next == Token \/ Fail \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Str(p, e) == SubSeq(src, p + 1, e)               \* the characters of [p, e)
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
\* is s, as a whole, a token?
IsWord(s) == s # <<>> /\ IsIdStart(s[1]) /\ All(s, IsIdChar)
IsNumber(s) == s # <<>> /\ (\/ (All(s, IsDigit) /\ (s[1] # 48 \/ (\A i \in 1..Len(s) : IsOct(s[i]))))
                            \/ (Len(s) > 2 /\ s[1] = 48 /\ s[2] = 98 /\ \A i \in 3..Len(s) : IsBin(s[i]))
                            \/ (Len(s) > 2 /\ s[1] = 48 /\ s[2] = 120 /\ \A i \in 3..Len(s) : IsHex(s[i])))
IsSymbol(s) == Len(s) \in 1..2 /\ LET f == Fixed(s[1], IF Len(s) = 2 THEN s[2] ELSE -1) IN f[2] = Len(s)
IsLineComment(s) == Len(s) >= 2 /\ s[1] = 47 /\ s[2] = 47 /\ \A i \in 1..Len(s) : s[i] # 10
IsBlockComment(s) == /\ Len(s) >= 4 /\ s[1] = 47 /\ s[2] = 42 /\ s[Len(s)-1] = 42 /\ s[Len(s)] = 47
                     /\ \A i \in 3..(Len(s) - 3) : ~(s[i] = 42 /\ s[i+1] = 47)
\* a quote is escaped iff preceded by an odd number of backslashes
RECURSIVE Slashes(_, _)
Slashes(s, i) == IF i > 1 /\ s[i] = 92 THEN 1 + Slashes(s, i - 1) ELSE 0
IsStringLit(s) == /\ Len(s) >= 2 /\ s[1] = 34 /\ s[Len(s)] = 34
                  /\ \A i \in 2..(Len(s)) : (s[i] = 34 /\ Slashes(s, i - 1) % 2 = 0) <=> i = Len(s)
IsTok(s) == IsWord(s) \/ IsNumber(s) \/ IsSymbol(s) \/ IsLineComment(s) \/ IsBlockComment(s) \/ IsStringLit(s)

PosOf(p) ==            \* line and column of an offset, from the text alone
  LET nls == {i \in 1..p : src[i] = 10}
      Last(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
      from == Last({i \in 1..p : src[i] \in {10, 13}})
      RECURSIVE Sum(_)
      Sum(i) == IF i > p THEN 0 ELSE (IF src[i] = 9 THEN 4 ELSE 1) + Sum(i + 1)
  IN <<Cardinality(nls), Sum(from + 1)>>
TokensAreMaximal == \A i \in 1..Len(toks) :
  LET t == toks[i] IN
  /\ IsTok(Str(t.b, t.b + t.n))
  /\ \A e \in (t.b + t.n + 1)..Len(src) : ~IsTok(Str(t.b, e))
  /\ PosOf(t.b) = <<t.l, t.c>>
Partition ==           \* only whitespace between the tokens and behind the last one
  LET end(i) == IF i = 0 THEN 0 ELSE toks[i].b + toks[i].n
      begin(i) == IF i > Len(toks) THEN cur.pos ELSE toks[i].b
  IN \A i \in 0..Len(toks) : end(i) <= begin(i + 1) /\ All(Str(end(i), begin(i + 1)), IsSpace)
DoneMeansAll == status = "done" => cur.pos = Len(src)
\* refused only where no token starts, or where a number runs into a word
FailIsReal == status \notin {"run", "done"} =>
  LET p == SkipSpace(src, cur).pos IN
  \/ \A e \in (p + 1)..Len(src) : ~IsTok(Str(p, e)) \/ (status \in {"unterminated_comment", "no_digits_following_integer_prefix"} /\ e = p + 1)
  \/ (status = "integer_suffix" /\ \E e \in (p + 1)..(Len(src) - 1) : IsNumber(Str(p, e)) /\ ~IsNumber(Str(p, e + 1)) /\ IsIdChar(src[e + 1]))
SameAsFunction == status = "done" => Tokenize(src) = [ok |-> TRUE, toks |-> toks]
Terminates == <>(status # "run")
=============================================================================
