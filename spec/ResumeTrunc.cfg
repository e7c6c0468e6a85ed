SPECIFICATION Spec
CONSTANTS
 N = 2
 K = 4
 Trunc = TRUE
 MaxUpdates = 1
 AnyTime = TRUE
 MaxCrashes = 2
VIEW view
INVARIANTS AlwaysBeginning DoneIsWhole DoneIsFull RefusalHasCause
CHECK_DEADLOCK FALSE
