SPECIFICATION Spec
CONSTANTS LimbBits = 2 MaxW = 3 IntMax = 9
INVARIANTS Sound Exact IfSound
CHECK_DEADLOCK FALSE
