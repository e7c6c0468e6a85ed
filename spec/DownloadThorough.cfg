SPECIFICATION Spec
CONSTANTS
 N = 4
 S = 0
 P = 3
 R = 2
 WriterMayFail = TRUE
 Locked = TRUE
 Record = FALSE
 FailBudget = 4
VIEW view
INVARIANTS InOrder SuccessIsAll WholePrefix SuccessMeansObtained Clean TriesBounded AbortHasCause Bounded NotAgain Inside
PROPERTIES StopsAsking
CHECK_DEADLOCK TRUE
