SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxOps = 5
INVARIANTS Guarded ReadsBack Nested Indented Done AtLine
