SPECIFICATION Spec
CONSTANTS MaxN = 20 Bufs = {1, 2, 3, 5} MaxM = 4 MergeBuf = 2 Style = "back"
INVARIANTS Memory Once Few
CHECK_DEADLOCK FALSE
