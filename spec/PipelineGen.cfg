SPECIFICATION GenSpec
CONSTANTS NF = 3 K = 3 Slots = {1, 2, 3} Counts = {1, 2} MaxOps = 17 Limits = {2, 5, 99}
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
