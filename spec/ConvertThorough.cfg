SPECIFICATION Spec
CONSTANTS MaxLines = 7 Recs = {1,2} MaxLimit = 8 Buf = 3
INVARIANTS Complete OnlyText BadFails
CHECK_DEADLOCK FALSE
