SPECIFICATION Spec
CONSTANTS LimbBits = 2 MaxW = 4 IntMax = 17
INVARIANTS TypeSound Failures Results
CHECK_DEADLOCK FALSE
