SPECIFICATION Spec
CONSTANTS
 N = 2
 K = 5
 Trunc = TRUE
 MaxUpdates = 2
 AnyTime = TRUE
 MaxCrashes = 3
VIEW view
INVARIANTS AlwaysBeginning DoneIsWhole DoneIsFull RefusalHasCause
CHECK_DEADLOCK FALSE
