-------------------------------- MODULE Cli --------------------------------
(* The command-line program as a machine that goes through the stages of a     *)
(* command.  A stage either succeeds or ends the run: with a message and a     *)
(* failing status.  Only behind the last stage does the run end in success.    *)
EXTENDS Naturals, Sequences
Commands == {"dump_tokens", "dump_ast", "verify", "generate", "html"}
\* what a file may be called, by its suffix
Suffixes == {"bms", "bmd", "other"}
Names == [bms |-> {"bms", "BMS"}, c |-> {"c", "C"}, cpp |-> {"c++", "C++", "cpp", "cxx"}]
Targets == {"bms", "c", "cpp"}                             \* the other languages cannot be generated yet
\* the stages of a command; "usage" for a command line that names none
Stages(cmd, suffix) ==
  CASE cmd = "dump_tokens" /\ suffix = "bms" -> <<"load", "tokenize", "write">>
    [] cmd = "dump_ast" /\ suffix = "bms" -> <<"load", "tokenize", "parse", "write">>
    [] cmd = "dump_ast" /\ suffix = "bmd" -> <<"load", "document", "write">>
    [] cmd = "verify" /\ suffix = "bms" -> <<"load", "tokenize", "parse", "analyze", "write">>
    [] cmd = "generate" /\ suffix = "bms" -> <<"language", "load", "tokenize", "parse", "analyze", "generate", "write">>
    [] cmd = "html" /\ suffix = "bmd" -> <<"load", "document", "open", "render", "write">>
    [] OTHER -> <<"usage">>
Start_ == [at |-> 1, status |-> "running", message |-> FALSE, complete |-> FALSE]
\* one stage; `good` tells which stages succeed
Stage(s, stages, good) ==
  IF stages[s.at] \notin good \/ stages[s.at] = "usage" THEN [s EXCEPT !.status = "failure", !.message = TRUE]
  ELSE IF s.at = Len(stages) THEN [s EXCEPT !.status = "success", !.complete = TRUE]
  ELSE [s EXCEPT !.at = @ + 1]
RECURSIVE Run_(_, _, _)
Run_(s, stages, good) == IF s.status # "running" THEN s ELSE Run_(Stage(s, stages, good), stages, good)
=============================================================================
