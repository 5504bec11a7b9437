\* without the exceptions for the known findings of V02
SPECIFICATION Spec
CONSTANT LimbBits = 12
NegInto128 <- Never
Fits128 <- FitsInt
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
