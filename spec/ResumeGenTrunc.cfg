SPECIFICATION Spec
CONSTANTS
 N = 3
 K = 4
 Trunc = TRUE
 MaxUpdates = 2
 AnyTime = FALSE
 MaxCrashes = 3
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
