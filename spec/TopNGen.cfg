SPECIFICATION GenSpec
CONSTANTS Hashes = {1,2,3} Counts = {1,2} MaxLen = 4 MaxN = 4
CHECK_DEADLOCK FALSE
