------------------------------- MODULE CK_VM -------------------------------
(* Validation of traces of the virtual machine.  A record holds what was done  *)
(* with a machine (job.do) and, per action, what was observed (obs.steps): the *)
(* outcome and the whole operand stack behind it.  Every step of this          *)
(* specification is one action of the machine; the observation has to be the   *)
(* one of the model, otherwise the trace is refused.                           *)
EXTENDS VM, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, m, prog, bad
vars == <<l, i, m, prog, bad>>

Do(a) ==      \* what an action leads to: [r, e, s, p]
  CASE a.do = "cycle" -> LET c == Cycle(prog, m) IN [r |-> c.r, e |-> c.e, p |-> prog, s |-> IF c.r \in {"ok", "err"} THEN c.s ELSE m]
    [] a.do = "push" -> [r |-> "ok", e |-> "", p |-> prog, s |-> [PushV(m, a.v) EXCEPT !.cmp = <<>>]]
    [] a.do = "pop" -> [r |-> "ok", e |-> "", p |-> prog, s |-> [Drop(m, 1) EXCEPT !.cmp = <<>>]]
    [] a.do = "jump" -> [r |-> "ok", e |-> "", p |-> prog, s |-> [m EXCEPT !.ip = a.a, !.cmp = <<>>]]
    [] a.do = "reset" -> [r |-> "ok", e |-> "", p |-> prog, s |-> Initial]
    [] a.do = "clear" -> [r |-> "ok", e |-> "", p |-> <<>>, s |-> Initial]
    [] a.do = "add" -> [r |-> "ok", e |-> "", p |-> prog \o a.is, s |-> m]
Same(a, b) == a.t = b.t /\ a.v = b.v
SameStack(s, o) == Len(s) = Len(o) /\ \A k \in 1..Len(s) : Same(s[k], o[k])
\* is the observation o of action a the one of outcome w?
Right(a, w, o) ==
  /\ o.r = w.r
  /\ a.do = "add" => o.a = Len(prog)
  /\ a.do = "pop" => Same(Top(m), o.v)
  /\ o.n = Len(w.p)
  /\ SameStack(w.s.stack, o.stack)
  /\ w.r = "err" =>
       /\ IF w.e \in EvaluationErrors THEN o.e = "evaluation" /\ o.ev = w.e ELSE o.e = w.e
       /\ o.at = prog[m.ip + 1].id
       \* an assertion right behind a comparison reports its operands
       /\ (w.e = "assertion_fail" /\ m.cmp # <<>>) =>
             "cmp" \in DOMAIN o /\ Same(o.cmp[1], m.cmp[1]) /\ o.cmp[2] = m.cmp[2] /\ Same(o.cmp[3], m.cmp[3])
Init == l = 1 /\ i = 1 /\ m = Initial /\ prog = <<>> /\ bad = 0
NextTrace(b) == l' = l + 1 /\ i' = 1 /\ m' = Initial /\ prog' = <<>> /\ bad' = b
Step ==
  /\ l <= Len(Trace)
  /\ LET as == Trace[l].job.acts
         os == Trace[l].obs.steps
     IN IF i > Len(os) THEN NextTrace(bad)
        ELSE LET w == Do(as[i]) IN
             IF w.r = "skip" THEN NextTrace(bad)
             ELSE IF Right(as[i], w, os[i])
                  THEN (IF w.r = "end" THEN NextTrace(bad) ELSE l' = l /\ i' = i + 1 /\ m' = w.s /\ prog' = w.p /\ bad' = bad)
             ELSE /\ PrintT("BAD " \o ToString(l) \o " action " \o ToString(i) \o ": " \o w.r \o " " \o w.e \o " with the stack " \o ToJson(w.s.stack))
                  /\ NextTrace(bad + 1)
Spec == Init /\ [][Step]_vars
\* every action was consumed, or its trace was given up (refused, or left the specification)
Consumed == TLCGet("stats").diameter - 1 >= Len(Trace)
=============================================================================
