SPECIFICATION GenSpec
CONSTANTS MaxLines = 4 Recs = {1,2} MaxLimit = 5 Buf = 2
CHECK_DEADLOCK FALSE
