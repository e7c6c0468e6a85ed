SPECIFICATION Spec
CONSTANTS Workers = {1, 2} Conns = {1, 2, 3} N = 3 B = 2 MaxReqs = 1 MaxFaults = 2 MaxLeaves = 1 Shared = FALSE
INVARIANTS Independent ClosedOnlyByErrors OneAtATime
CHECK_DEADLOCK FALSE
