SPECIFICATION Spec
CONSTANTS Width = 3 MaxLen = 8 AllBits = {0, 1, 2, 3}
INVARIANTS Correct TocOK Bracket
CHECK_DEADLOCK FALSE
