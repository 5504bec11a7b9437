------------------------------ MODULE MC_Html ------------------------------
(* All short histories of the writer: whatever is written reads back as the    *)
(* history, elements nest, and the indentation is that of the open blocks.     *)
EXTENDS Html
CONSTANT MaxOps
VARIABLES s, out, hist, n
vars == <<s, out, hist, n>>
W == 2
Tb == <<98>>
Tp == <<112>>
T(str) == Codes(str)
Texts == {<<>>, T("a"), T("<&>\""), <<97, 10, 98>>, <<10>>}
Ops == {[o |-> "preamble"], [o |-> "endattr"], [o |-> "endempty"]}
  \cup {[o |-> "empty", id |-> Tb, st |-> "in_line"], [o |-> "empty", id |-> Tp, st |-> "block"], [o |-> "empty", id |-> T("1"), st |-> "flat"]}
  \cup {[o |-> "begin", id |-> Tb, st |-> st] : st \in {"pre", "in_line"}}
  \cup {[o |-> "begin", id |-> Tp, st |-> st] : st \in {"flat", "block"}}
  \cup {[o |-> "beginattr", id |-> Tp, st |-> st] : st \in {"in_line", "block"}}
  \cup {[o |-> "attr", id |-> T("k"), t |-> t] : t \in {<<>>, T("v"), T("a b"), T("\"&'"), T("/")}}
  \cup {[o |-> "text", t |-> t, st |-> st] : t \in Texts, st \in {"pre", "in_line", "block"}}
  \cup {[o |-> "comment", t |-> T("-<"), st |-> "block"], [o |-> "comment", t |-> T("a-->"), st |-> "in_line"]}
  \cup {[o |-> "white", c |-> 10, n |-> 1], [o |-> "white", c |-> 97, n |-> 1]}
  \cup {[o |-> "end"]}
Event(o) ==
  CASE o.o = "preamble" -> <<Ev("doctype", <<>>, <<>>, T("DOCTYPE html"))>>
    [] o.o = "empty" -> <<Ev("empty", o.id, <<>>, <<>>)>>
    [] o.o = "begin" -> <<Ev("open", o.id, <<>>, <<>>)>>
    [] o.o = "end" -> <<Ev("close", o.id, <<>>, <<>>)>>
    [] o.o = "text" -> <<Ev("text", <<>>, <<>>, o.t)>>
    [] o.o = "comment" -> <<Ev("comment", <<>>, <<>>, o.t)>>
    [] o.o = "beginattr" -> <<Ev("?", o.id, <<>>, <<>>)>>
    [] OTHER -> <<>>
Hist(h, o) ==
  CASE o.o = "attr" -> [h EXCEPT ![Len(h)].at = Append(@, <<o.id, o.t>>)]
    [] o.o = "endattr" -> [h EXCEPT ![Len(h)].k = "open"]
    [] o.o = "endempty" -> [h EXCEPT ![Len(h)].k = "empty"]
    [] OTHER -> h \o Event(o)
Top == s.stk[Len(s.stk)]
Full(o) == IF o.o = "end" THEN (IF s.stk = <<>> THEN [o |-> "end", id |-> Tb, st |-> "pre"] ELSE [o |-> "end", id |-> Top.id, st |-> Top.st]) ELSE o
Init == s = Initial /\ out = <<>> /\ hist = <<>> /\ n = 0
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E o0 \in Ops : LET o == Full(o0)
                               r == Step(s, W, o)
                           IN /\ r.ok
                              /\ s' = r.s /\ out' = out \o r.out /\ hist' = Hist(hist, o)
Spec == Init /\ [][Next]_vars
\* in front of the preamble nothing can be written, and the preamble comes once
Guarded == \A o \in Ops : LET r == Step(s, W, Full(o)) IN
             /\ ~r.ok => r.out = <<>> /\ r.s = s
             /\ s.mode = "initial" => (r.ok <=> o.o = "preamble")
             /\ s.mode = "attributes" => (r.ok <=> o.o \in {"attr", "endattr", "endempty"})
             /\ Content(s) => (o.o \in {"preamble", "attr", "endattr", "endempty"} => ~r.ok)
NoWhite(evs) == SelectSeq([i \in 1..Len(evs) |-> [evs[i] EXCEPT !.t = IF evs[i].k = "text" THEN SelectSeq(@, LAMBDA c : ~IsSpace(c)) ELSE @]],
                          LAMBDA e : e.k # "text" \/ e.t # <<>>)
RECURSIVE Joined(_, _, _)
Joined(evs, i, acc) == IF i > Len(evs) THEN acc ELSE Joined(evs, i + 1, Merge(acc, evs[i]))
ReadsBack == s.mode # "attributes" => LET r == Read(out) IN r.ok /\ Joined(NoWhite(r.evs), 1, <<>>) = Joined(NoWhite(hist), 1, <<>>)
Nested == s.mode # "attributes" =>
            LET q == Nesting(Read(out).evs) IN q.ok /\ q.open = [i \in 1..Len(s.stk) |-> s.stk[i].id]
Indented == s.ind = Len(SelectSeq(s.stk, LAMBDA e : e.st = "block")) /\ s.ind >= 0
Done == IsDone(s) <=> (s.mode \in {"normal", "newline"} /\ s.stk = <<>>)
\* a line break is written exactly when the writer knows it is at the start of a line (or wrote that itself)
AtLine == s.mode = "newline" => out[Len(out)] = 10
=============================================================================
