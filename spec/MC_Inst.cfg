SPECIFICATION Spec
CONSTANTS
  LimbBits = 12
  Size = 2
  Leaves = {"a", "b", "N"}
  Operators = {"+", "<<"}
INVARIANTS Same Told
CHECK_DEADLOCK FALSE
