SPECIFICATION Spec
CONSTANTS LimbBits = 2 Max = 70 Shift = 9
INVARIANTS Arithmetic LongDivision BitOps Powers
CHECK_DEADLOCK FALSE
