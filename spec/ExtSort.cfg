SPECIFICATION Spec
CONSTANTS Hashes = {1,2} Counts = {1,2} MaxLen = 4 MaxChunk = 5
INVARIANTS Correct NothingLost
CHECK_DEADLOCK FALSE
