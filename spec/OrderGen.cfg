SPECIFICATION GenSpec
CONSTANTS Bytes = {0} MaxN = 0 Word = 2 Vec = 4
CHECK_DEADLOCK FALSE
