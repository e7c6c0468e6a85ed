SPECIFICATION GenSpec
CONSTANTS Order = "right"
CHECK_DEADLOCK FALSE
