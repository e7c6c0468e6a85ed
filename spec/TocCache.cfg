SPECIFICATION Spec
CONSTANTS Bits = {1,2} MaxVer = 4 MaxTick = 4 MaxOps = 7 Procs = {1,2} Nested = FALSE
INVARIANTS Current StoredWhole NeverNewer
VIEW View
CHECK_DEADLOCK FALSE
