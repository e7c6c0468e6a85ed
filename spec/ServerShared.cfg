SPECIFICATION Spec
CONSTANTS Workers = {1, 2} Conns = {1, 2} N = 3 B = 1 MaxReqs = 1 MaxFaults = 0 MaxLeaves = 0 Shared = TRUE
INVARIANTS Independent
CHECK_DEADLOCK FALSE
