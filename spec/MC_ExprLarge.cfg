SPECIFICATION Spec
CONSTANTS
  LimbBits = 12
  Typed = FALSE
  Size = 2
  Leaves = {"a", "b", "p", "1", "true"}
  Operators = {"+", "-", "/", "%", "<<", "&", "==", "<", "&&", "||"}
  Unaries = {"-", "!", "~"}
  Targets = {2, 3}
INVARIANTS Fits Told
CHECK_DEADLOCK FALSE
