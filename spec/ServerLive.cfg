SPECIFICATION LiveSpec
CONSTANTS Workers = {1, 2} Conns = {1, 2} N = 2 B = 1 MaxReqs = 1 MaxFaults = 1 MaxLeaves = 1 Shared = FALSE
PROPERTY Served Freed
CHECK_DEADLOCK FALSE
