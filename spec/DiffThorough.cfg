SPECIFICATION Spec
CONSTANTS Hashes = {1,2,3,4,5} Counts = {1,2}
INVARIANTS Correct
CHECK_DEADLOCK FALSE
