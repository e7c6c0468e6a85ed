SPECIFICATION Spec
CONSTANTS
 N = 3
 K = 3
 Trunc = FALSE
 MaxUpdates = 2
 AnyTime = TRUE
 MaxCrashes = 3
VIEW view
INVARIANTS AlwaysBeginning DoneIsWhole DoneIsFull RefusalHasCause
CHECK_DEADLOCK FALSE
