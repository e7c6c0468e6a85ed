SPECIFICATION Spec
CONSTANTS BlockLen = 4 LenBytes = 1 MaxMsg = 9 MaxPieces = 3
INVARIANTS Correct Buffered
CONSTRAINT GenConstraint
CHECK_DEADLOCK FALSE
