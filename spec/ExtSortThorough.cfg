SPECIFICATION Spec
CONSTANTS Hashes = {1,2} Counts = {1,2} MaxLen = 5 MaxChunk = 6
INVARIANTS Correct NothingLost
PROPERTY Terminates
CHECK_DEADLOCK FALSE
