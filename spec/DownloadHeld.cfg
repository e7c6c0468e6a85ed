SPECIFICATION Spec
CONSTANTS
 N = 40
 S = 0
 P = 8
 R = 5
 WriterMayFail = TRUE
 Locked = TRUE
 Record = TRUE
 FailBudget = 3
CONSTRAINT Stop
ACTION_CONSTRAINTS SlowWriter
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
