SPECIFICATION GenSpec
CONSTANTS Hashes = {1,2,3,4} Counts = {1,2}
CHECK_DEADLOCK FALSE
