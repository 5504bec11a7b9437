SPECIFICATION Spec
CONSTANT LimbBits = 12
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
