SPECIFICATION Spec
CONSTANTS
  LimbBits = 12
  Size = 4
  Simple = {"let", "use", "open", "const", "assert", "check", "zero"}
  Conditions = {"both"}
INVARIANTS Refines Told
CHECK_DEADLOCK FALSE
