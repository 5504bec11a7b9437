SPECIFICATION Spec
CONSTANTS
  LimbBits = 12
  Size = 4
  Ids = {"x", "y"}
  Forms = {"static_assert", "two", "open", "if", "while", "return"}
INVARIANTS Scoped Anonymous Told
CHECK_DEADLOCK FALSE
