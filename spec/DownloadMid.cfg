SPECIFICATION Spec
CONSTANTS
 N = 3
 S = 0
 P = 2
 R = 5
 WriterMayFail = FALSE
 Locked = TRUE
 Record = TRUE
 FailBudget = 12
CONSTRAINT Stop
ACTION_CONSTRAINTS OneFails SlowWriter
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
