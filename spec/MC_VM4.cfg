SPECIFICATION Spec
CONSTANTS LimbBits = 12 Longest = 4 MaxDepth = 4 MaxFrames = 3
INVARIANTS TypeOK Ends Explained
PROPERTIES Frames Stack Missing Moves
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
