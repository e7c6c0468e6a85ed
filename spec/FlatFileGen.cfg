SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxBuf = 4 Its = {1,2,3} MaxOps = 14
INVARIANTS ReadsOK BufferOK GenEmit
CHECK_DEADLOCK FALSE
