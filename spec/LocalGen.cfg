SPECIFICATION GenSpec
CONSTANTS Servers = {1, 2, 3} Addrs = {"a", "b", "all", "far", "default"} Ports = {1, 2} MaxOps = 9
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
