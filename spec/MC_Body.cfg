SPECIFICATION Spec
CONSTANTS
  LimbBits = 12
  Size = 3
  Simple = {"inc", "call", "not", "break", "continue", "return", "assert"}
  Conditions = {"y", "less"}
INVARIANTS Refines Told
CHECK_DEADLOCK FALSE
