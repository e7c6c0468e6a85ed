SPECIFICATION Spec
CONSTANTS Width = 4 MaxLen = 5 AllBits = {0, 1, 2, 3, 4}
INVARIANTS Correct TocOK Bracket
CHECK_DEADLOCK FALSE
