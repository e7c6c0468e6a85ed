SPECIFICATION Spec
CONSTANTS Hashes = {1,2,3} Counts = {1,2} MaxLen = 5 MaxN = 5
INVARIANTS Correct HeapOK
CHECK_DEADLOCK FALSE
