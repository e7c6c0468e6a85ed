SPECIFICATION Spec
CONSTANTS Order = "openFirst"
INVARIANTS RefusedLeavesAll InputKept NoOverwrite
CHECK_DEADLOCK FALSE
