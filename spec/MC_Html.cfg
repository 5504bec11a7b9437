SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxOps = 4
INVARIANTS Guarded ReadsBack Nested Indented Done AtLine
