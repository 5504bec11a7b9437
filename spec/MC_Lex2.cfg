SPECIFICATION Spec
CONSTANTS Alphabet = {49, 48, 98, 120, 70, 9, 13, 61, 62, 95, 200} MaxLen = 4
INVARIANTS TokensAreMaximal Partition DoneMeansAll FailIsReal SameAsFunction
CHECK_DEADLOCK FALSE
