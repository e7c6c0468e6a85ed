SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxBuf = 3 Its = {1,2} MaxOps = 7
INVARIANTS ReadsOK BufferOK
VIEW View
CHECK_DEADLOCK FALSE
