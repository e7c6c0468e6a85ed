SPECIFICATION GenSpec
CONSTANTS Hashes = {1,2} Counts = {1,2} MaxLen = 4 MaxChunk = 4
CHECK_DEADLOCK FALSE
