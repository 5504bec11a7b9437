SPECIFICATION Spec
CONSTANTS
  LimbBits = 12
  Size = 4
  Ids = {"x", "y"}
  Forms = {"width", "call"}
INVARIANTS Scoped Anonymous Told
CHECK_DEADLOCK FALSE
