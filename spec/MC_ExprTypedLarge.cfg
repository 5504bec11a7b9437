SPECIFICATION Spec
CONSTANTS
  LimbBits = 12
  Typed = TRUE
  Size = 3
  Leaves = {"b", "1"}
  Operators = {"+", "/", "<<", "<", "&&", "||"}
  Unaries = {"-", "!"}
  Targets = {}
INVARIANTS Fits Told
CHECK_DEADLOCK FALSE
