SPECIFICATION Spec
CONSTANTS MaxItems = 7 AppCap = 2 StreamCap = 3 MaxFaults = 2 Styles = {"early"}
INVARIANTS SuccessIsComplete
CHECK_DEADLOCK FALSE
