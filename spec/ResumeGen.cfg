SPECIFICATION Spec
CONSTANTS
 N = 3
 K = 3
 Trunc = FALSE
 MaxUpdates = 2
 AnyTime = FALSE
 MaxCrashes = 3
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
