SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxBuf = 2 Its = {1,2} MaxOps = 5
INVARIANTS ReadsOK BufferOK
VIEW View
CHECK_DEADLOCK FALSE
