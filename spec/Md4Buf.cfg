SPECIFICATION Spec
CONSTANTS BlockLen = 4 LenBytes = 1 MaxMsg = 9 MaxPieces = 4
INVARIANTS Correct Buffered
CHECK_DEADLOCK FALSE
