SPECIFICATION GenSpec
CONSTANTS MaxItems = 6 AppCap = 2 StreamCap = 1 MaxFaults = 1 Styles = {"throw"}
CHECK_DEADLOCK FALSE
