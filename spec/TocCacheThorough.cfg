SPECIFICATION Spec
CONSTANTS Bits = {1,2} MaxVer = 5 MaxTick = 5 MaxOps = 9 Procs = {1,2} Nested = FALSE
INVARIANTS Current StoredWhole NeverNewer
VIEW View
CHECK_DEADLOCK FALSE
