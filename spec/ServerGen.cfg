SPECIFICATION GenSpec
CONSTANTS Workers = {1} Conns = {1, 2} N = 2 B = 1 MaxReqs = 2 MaxFaults = 0 MaxLeaves = 0 Shared = FALSE
CHECK_DEADLOCK FALSE
