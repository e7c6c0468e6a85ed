SPECIFICATION Spec
CONSTANTS
 N = 5
 S = 0
 P = 3
 R = 5
 WriterMayFail = TRUE
 Locked = TRUE
 Record = TRUE
 FailBudget = 6
CONSTRAINT Stop
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
