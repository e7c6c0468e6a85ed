SPECIFICATION FairSpec
CONSTANTS
 N = 3
 S = 0
 P = 2
 R = 1
 WriterMayFail = TRUE
 Locked = TRUE
 Record = FALSE
 FailBudget = 2
PROPERTY Termination
CHECK_DEADLOCK TRUE
