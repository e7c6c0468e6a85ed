SPECIFICATION Spec
CONSTANTS Workers = {1, 2} Conns = {1, 2} N = 1 B = 1 MaxReqs = 2 MaxFaults = 1 MaxLeaves = 0 Shared = FALSE
INVARIANTS Independent ClosedOnlyByErrors OneAtATime
CHECK_DEADLOCK FALSE
