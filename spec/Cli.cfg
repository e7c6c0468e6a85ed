SPECIFICATION Spec
CONSTANTS Order = "right"
INVARIANTS RefusedLeavesAll InputKept NoOverwrite
CHECK_DEADLOCK FALSE
