SPECIFICATION Spec
CONSTANTS MaxLines = 5 Recs = {1,2} MaxLimit = 6 Buf = 2
INVARIANTS Complete OnlyText BadFails
CHECK_DEADLOCK FALSE
