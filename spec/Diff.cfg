SPECIFICATION Spec
CONSTANTS Hashes = {1,2,3,4} Counts = {1,2}
INVARIANTS Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
