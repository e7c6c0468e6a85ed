SPECIFICATION Spec
CONSTANTS
 N = 2
 S = 0
 P = 2
 R = 5
 WriterMayFail = TRUE
 Locked = TRUE
 Record = TRUE
 FailBudget = 1
CONSTRAINT Stop
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
