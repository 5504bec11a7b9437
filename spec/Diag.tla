-------------------------------- MODULE Diag --------------------------------
(* Printed diagnostics.  A diagnostic is a list of messages, each introduced   *)
(* by FILE:LINE:COLUMN: (1-based) or, if its cause lies inside the compiler,   *)
(* by (internal):, and followed by error: or note: and a text.  Below such a   *)
(* message comes the excerpt of the source: the line with its number, and a    *)
(* mark below the column.  The first message, and only that, is the error; it  *)
(* is at the line of the failure and shows it.  The notes are at that line or  *)
(* at that of the cause, and the cause is pointed at by one of them.           *)
EXTENDS Lex
Part(s, p, e) == SubSeq(s, p + 1, e)                       \* the characters of [p, e)
Starts(s, p, w) == p + Len(w) <= Len(s) /\ Part(s, p, p + Len(w)) = w
RECURSIVE NthLine(_, _, _)                                 \* the text of line n (0-based) of what begins at p
NthLine(s, p, n) == LET e == EndOfLine(s, p) IN
  IF n = 0 THEN Part(s, p, e) ELSE IF e >= Len(s) THEN <<>> ELSE NthLine(s, e + 1, n - 1)
RECURSIVE DecOf(_, _, _)                                   \* the number of the digits [p, e)
DecOf(s, p, e) == IF p >= e THEN 0 ELSE 10 * DecOf(s, p, e - 1) + s[e] - 48
Spaces(n) == [i \in 1..n |-> 32]
NumC(n) == Codes(ToString(n))
Pad5(d) == Spaces(IF Len(d) < 5 THEN 5 - Len(d) ELSE 0) \o d
Excerpt(src, l, c) == Pad5(NumC(l + 1)) \o Codes(" | ") \o NthLine(src, 0, l) \o <<10>>
                      \o Spaces(5) \o Codes(" | ") \o Spaces(c) \o Codes("^") \o <<10>>
InternalC == Codes("(internal): ")
ErrorC == Codes("error: ")
NoteC == Codes("note: ")
\* the end of a message; a line break that it quotes belongs to it
RECURSIVE EndOfText(_, _)
EndOfText(s, p) == LET e == EndOfLine(s, p) IN
  IF e > p /\ s[e] = 39 /\ At(s, e + 1) = 39 THEN EndOfText(s, e + 2) ELSE e
\* the message that begins at p: where it is, its kind, its text and where it ends
Message(out, name, p) ==
  LET kind(q, l, c) ==
        LET k == IF Starts(out, q, ErrorC) THEN "error" ELSE IF Starts(out, q, NoteC) THEN "note" ELSE "none"
            b == q + (IF k = "error" THEN 7 ELSE 6)
            e == EndOfText(out, b)
        IN IF k = "none" \/ e <= b \/ e >= Len(out) THEN [ok |-> FALSE]
           ELSE [ok |-> TRUE, k |-> k, l |-> l, c |-> c, t |-> Part(out, b, e), e |-> e + 1]
      h == name \o <<58>>
      b1 == p + Len(h)
      e1 == EndOfDigits(out, b1, 10)
      e2 == EndOfDigits(out, e1 + 1, 10)
  IN IF Starts(out, p, InternalC) THEN kind(p + Len(InternalC), -1, -1)
     ELSE IF ~Starts(out, p, h) \/ e1 = b1 \/ At(out, e1) # 58 \/ e2 = e1 + 1 \/ ~Starts(out, e2, Codes(": ")) THEN [ok |-> FALSE]
     ELSE kind(e2 + 2, DecOf(out, b1, e1) - 1, DecOf(out, e1 + 1, e2) - 1)
RECURSIVE Messages(_, _, _, _, _)
Messages(out, name, src, p, acc) ==
  IF p >= Len(out) THEN [ok |-> TRUE, ms |-> acc]
  ELSE LET m == Message(out, name, p) IN
       IF ~m.ok THEN [ok |-> FALSE, p |-> p]
       ELSE LET x == IF m.l < 0 THEN <<>> ELSE Excerpt(src, m.l, m.c)
                shown == m.l >= 0 /\ Starts(out, m.e, x)
            IN Messages(out, name, src, IF shown THEN m.e + Len(x) ELSE m.e,
                        Append(acc, [k |-> m.k, l |-> m.l, t |-> m.t, shown |-> shown]))
\* does a text end in w?
Ends(t, w) == Len(w) <= Len(t) /\ SubSeq(t, Len(t) - Len(w) + 1, Len(t)) = w
\* fls: the lines the failure may be at; cl: that of the cause (-1: inside the compiler, -2: there is none);
\* said: what one of the messages has to end with.  "" if nothing is wrong
Amiss(src, name, out, fls, cl, said) ==
  LET r == Messages(out, name, src, 0, <<>>)
      ms == r.ms
      N == 1..Len(ms)
  IN IF ~r.ok THEN "a message at offset " \o ToString(r.p) \o " of what was printed"
     ELSE IF ms = <<>> THEN "a message"
     ELSE IF ms[1].k # "error" \/ \E i \in N : i > 1 /\ ms[i].k = "error" THEN "one error and notes"
     ELSE IF ms[1].l \notin fls THEN "the error at a line of (0-based) " \o ToString(fls)
     ELSE IF \E i \in N : ms[i].l \notin fls \cup {cl} THEN "no other lines than (0-based) " \o ToString(fls \cup {cl})
     ELSE IF src # <<>> /\ ~\E i \in N : ms[i].l = ms[1].l /\ ms[i].shown THEN "the line of the error"
     ELSE IF cl >= 0 /\ ~\E i \in N : ms[i].l = cl /\ ms[i].shown THEN "line (0-based) " \o ToString(cl) \o " as the cause"
     ELSE IF said # <<>> /\ ~\E i \in N : Ends(ms[i].t, said) THEN "a message that ends in " \o Word(said, 0, Len(said))
     ELSE ""
=============================================================================
