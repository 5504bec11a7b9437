------------------------------- MODULE MC_VM -------------------------------
(* The machine on its own: every program of at most Longest instructions over a *)
(* small instruction set, run from the beginning until it stops.               *)
EXTENDS VM
CONSTANTS Longest, MaxDepth, MaxFrames
VARIABLES prog, m, r, e
vars == <<prog, m, r, e>>
One == VInt(IOne)
U1 == Val(TUint(1), IOne)
Instructions ==
  {[i |-> "push", v |-> VBool(TRUE)], [i |-> "push", v |-> One], [i |-> "push", v |-> U1],
   [i |-> "load", key |-> 0], [i |-> "store", key |-> 0], [i |-> "pop"], [i |-> "return"], [i |-> "assert"],
   [i |-> "unary", op |-> "logical_not"], [i |-> "binary", op |-> "binary_plus"], [i |-> "binary", op |-> "equals"],
   [i |-> "convert", t |-> TUint(1)], [i |-> "break"]}
  \cup {[i |-> "jump", o |-> o] : o \in {-2, -1, 0, 1}}
  \cup {[i |-> "jump_if", o |-> o, x |-> x] : o \in {-2, 1}, x \in BOOLEAN}
  \cup {[i |-> "call", a |-> a] : a \in 0..2}
Programs == UNION {[1..n -> Instructions] : n \in 1..Longest}
Init == prog \in Programs /\ m = Initial /\ r = "ok" /\ e = ""
Next ==
  /\ r = "ok"
  /\ LET c == Cycle(prog, m) IN
     /\ r' = c.r /\ e' = (IF c.r = "skip" THEN "" ELSE c.e) /\ prog' = prog
     /\ m' = IF c.r \in {"ok", "err"} THEN c.s ELSE m
Spec == Init /\ [][Next]_vars
Bounded == Depth(m) <= MaxDepth /\ Len(m.frames) <= MaxFrames

TypeOK ==
  /\ m.ip \in 0..Len(prog)
  /\ m.frames # <<>> /\ m.frames[1].ret = -1
  /\ \A k \in 2..Len(m.frames) : m.frames[k].ret \in 1..Len(prog) /\ prog[m.frames[k].ret].i = "call"
  /\ \A k \in 1..Depth(m) : WellFormed(m.stack[k])
  /\ \A k \in 1..Len(m.frames) : \A v \in DOMAIN m.frames[k].vars : WellFormed(m.frames[k].vars[v])
  /\ r \in {"ok", "err", "end", "skip"}
\* the machine only ends behind its last instruction, and it always does so there
Ends == r = "end" => m.ip = Len(prog)
\* the recorded comparison explains the top of the stack
Explained == m.cmp # <<>> => Depth(m) > 0 /\ EvalBinary(m.cmp[1], m.cmp[2], m.cmp[3]) = Ok(Top(m))
\* a step touches no frame but the uppermost, enters at most one and leaves at most one
Frames == [][
  LET a == Len(m.frames)
      b == Len(m'.frames)
  IN /\ b \in a - 1..a + 1
     /\ \A k \in 1..(IF a < b THEN a ELSE b) : (k < a \/ b > a) => m'.frames[k] = m.frames[k]
     /\ (b = a - 1) => m'.ip = m.frames[a].ret
     /\ (b = a + 1) => m'.frames[b].ret = m.ip + 1 /\ m'.frames[b].vars = NoVars]_vars
\* every step consumes and produces what its instruction says, below that the stack stays
Footprint(n) == CASE n.i \in {"push", "load"} -> <<0, 1>> [] n.i \in {"store", "pop", "jump_if"} -> <<1, 0>>
                  [] n.i \in {"unary", "convert", "assert"} -> <<1, 1>> [] n.i = "binary" -> <<2, 1>> [] OTHER -> <<0, 0>>
Stack == [][r' = "ok" =>
  LET f == Footprint(prog[m.ip + 1])
      rest == Depth(m) - f[1]
  IN /\ rest >= 0 /\ Depth(m') = rest + f[2]
     /\ SubSeq(m'.stack, 1, rest) = SubSeq(m.stack, 1, rest)]_vars
\* operands are missing exactly if there are too few
Missing == [][r' = "err" => ((e' = "pop") <=> Depth(m) < Footprint(prog[m.ip + 1])[1])]_vars
\* no step stays where it is
Moves == [][r' = "ok" => m'.ip # m.ip]_vars
=============================================================================
