SPECIFICATION Spec
CONSTANTS Alphabet = {47, 42, 34, 92, 48, 56, 120, 97, 10, 38} MaxLen = 4
INVARIANTS TokensAreMaximal Partition DoneMeansAll FailIsReal SameAsFunction
CHECK_DEADLOCK FALSE
