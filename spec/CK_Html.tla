------------------------------ MODULE CK_Html ------------------------------
(* Validation of histories of the HTML writer.  Every step is one operation:   *)
(* its observation (accepted?, bytes written, result, complete?) has to be the *)
(* one of the machine.  At the end of a complete history, what was written is  *)
(* read back and has to be nested.                                             *)
EXTENDS Html, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, s, all, bad
vars == <<l, i, s, all, bad>>
Do(w, o) == IF o.o = "drop" THEN [ok |-> s.mode # "attributes", s |-> s, out |-> <<>>, ret |-> 0] ELSE Step(s, w, o)
Right(w, o) == o.ok = w.ok /\ o.out = w.out /\ o.ret = w.ret /\ o.done = IsDone(w.s)
Init == l = 1 /\ i = 1 /\ s = Initial /\ all = <<>> /\ bad = 0
NextTrace(b) == l' = l + 1 /\ i' = 1 /\ s' = Initial /\ all' = <<>> /\ bad' = b
Refuse(w) == PrintT("BAD " \o ToString(l) \o " " \o w) /\ NextTrace(bad + 1)
Step_ ==
  /\ l <= Len(Trace)
  /\ LET ops == Trace[l].job.ops
         os == Trace[l].obs.steps
     IN IF i > Len(ops)
        THEN LET r == Read(all) IN
             IF Len(os) # Len(ops) THEN Refuse("one observation for each operation")
             ELSE IF IsDone(s) /\ ~(r.ok /\ Nesting(r.evs) = [ok |-> TRUE, open |-> <<>>])
             THEN Refuse("SPECIFICATION: a complete page is well-formed: " \o ToJson(all)) ELSE NextTrace(bad)
        ELSE LET w == Do(Trace[l].job.width, ops[i]) IN
             IF i <= Len(os) /\ Right(w, os[i]) THEN l' = l /\ i' = i + 1 /\ s' = w.s /\ all' = all \o w.out /\ bad' = bad
             ELSE Refuse("operation " \o ToString(i) \o " is " \o (IF w.ok THEN "permitted" ELSE "refused") \o ", returns "
                         \o ToString(w.ret) \o " and writes " \o ToJson(w.out))
Spec == Init /\ [][Step_]_vars
Consumed == TLCGet("stats").diameter - 1 >= Len(Trace)
=============================================================================
