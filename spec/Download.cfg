SPECIFICATION Spec
CONSTANTS
 N = 3
 S = 0
 P = 2
 R = 1
 WriterMayFail = TRUE
 Locked = TRUE
 Record = FALSE
 FailBudget = 2
VIEW view
INVARIANTS InOrder SuccessIsAll WholePrefix SuccessMeansObtained Clean TriesBounded AbortHasCause Bounded NotAgain Inside
PROPERTIES StopsAsking
CHECK_DEADLOCK TRUE
