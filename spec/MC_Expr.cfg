SPECIFICATION Spec
CONSTANTS
  LimbBits = 12
  Typed = FALSE
  Size = 2
  Leaves = {"a", "b", "p", "0"}
  Operators = {"+", "/", "<<", "<", "&&", "||"}
  Unaries = {"-", "!"}
  Targets = {}
INVARIANTS Fits Told
CHECK_DEADLOCK FALSE
