------------------------------- MODULE MC_Cli -------------------------------
(* Every command on every kind of file with every combination of stages that   *)
(* succeed.                                                                    *)
EXTENDS Cli
VARIABLES cmd, suffix, good, s
vars == <<cmd, suffix, good, s>>
All == {"load", "tokenize", "parse", "analyze", "document", "language", "generate", "open", "render", "write"}
Init == /\ cmd \in Commands \cup {"nonsense"} /\ suffix \in Suffixes /\ good \in SUBSET All /\ s = Start_
Next == s.status = "running" /\ s' = Stage(s, Stages(cmd, suffix), good) /\ UNCHANGED <<cmd, suffix, good>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SuccessIsComplete == s.status = "success" <=> s.complete
FailureHasMessage == s.status = "failure" <=> s.message
VerdictOfVerify == s.status # "running" /\ cmd = "verify" /\ suffix = "bms" /\ {"load", "write"} \subseteq good =>
                     (s.status = "success" <=> {"tokenize", "parse", "analyze"} \subseteq good)
NothingElse == cmd = "nonsense" \/ suffix = "other" => s.status # "success"
Terminates == <>(s.status # "running")
AsRun == s.status # "running" => s = Run_(Start_, Stages(cmd, suffix), good)
=============================================================================
