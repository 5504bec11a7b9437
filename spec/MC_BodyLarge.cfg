SPECIFICATION Spec
CONSTANTS
  LimbBits = 12
  Size = 4
  Simple = {"inc", "call", "not", "break", "continue", "return"}
  Conditions = {"y", "less"}
INVARIANTS Refines Told
CHECK_DEADLOCK FALSE
