SPECIFICATION Spec
CONSTANTS Workers = {1, 2} Conns = {1, 2} N = 2 B = 1 MaxReqs = 1 MaxFaults = 1 MaxLeaves = 2 Shared = FALSE
INVARIANTS Independent ClosedOnlyByErrors OneAtATime
CHECK_DEADLOCK FALSE
