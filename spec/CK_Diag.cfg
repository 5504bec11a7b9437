SPECIFICATION Spec
INVARIANT Consumed0
