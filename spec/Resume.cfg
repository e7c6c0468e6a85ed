SPECIFICATION Spec
CONSTANTS
 N = 3
 K = 2
 Trunc = FALSE
 MaxUpdates = 1
 AnyTime = TRUE
 MaxCrashes = 2
VIEW view
INVARIANTS AlwaysBeginning DoneIsWhole DoneIsFull RefusalHasCause
CHECK_DEADLOCK FALSE
