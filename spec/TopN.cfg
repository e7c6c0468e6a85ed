SPECIFICATION Spec
CONSTANTS Hashes = {1,2,3} Counts = {1,2} MaxLen = 4 MaxN = 4
INVARIANTS Correct HeapOK
CHECK_DEADLOCK FALSE
