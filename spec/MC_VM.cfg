SPECIFICATION Spec
CONSTANTS LimbBits = 12 Longest = 3 MaxDepth = 3 MaxFrames = 3
INVARIANTS TypeOK Ends Explained
PROPERTIES Frames Stack Missing Moves
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
