SPECIFICATION Spec
CONSTANTS Bytes = {0, 127, 128, 255} HashLen = 2 MaxLen = 3 AllBits = {1, 7, 8, 9, 15, 16}
INVARIANTS Correct
CHECK_DEADLOCK FALSE
