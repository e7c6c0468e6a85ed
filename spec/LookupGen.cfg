SPECIFICATION GenSpec
CONSTANTS Width = 3 MaxLen = 8 AllBits = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
