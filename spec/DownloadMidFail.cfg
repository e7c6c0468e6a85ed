SPECIFICATION Spec
CONSTANTS
 N = 3
 S = 0
 P = 3
 R = 5
 WriterMayFail = TRUE
 Locked = TRUE
 Record = TRUE
 FailBudget = 12
CONSTRAINT Stop
ACTION_CONSTRAINTS OneFails SlowWriter
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
