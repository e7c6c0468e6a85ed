SPECIFICATION Spec
CONSTANTS Bits = {1,2} MaxVer = 5 MaxTick = 5 MaxOps = 10 Procs = {1,2} Nested = TRUE
INVARIANTS Current GenEmit
CHECK_DEADLOCK FALSE
