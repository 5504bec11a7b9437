SPECIFICATION Spec
INVARIANTS SuccessIsComplete FailureHasMessage VerdictOfVerify NothingElse AsRun
PROPERTY Terminates
CHECK_DEADLOCK FALSE
