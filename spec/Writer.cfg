SPECIFICATION Spec
CONSTANTS MaxItems = 7 AppCap = 2 StreamCap = 3 MaxFaults = 2 Styles = {"throw", "final"}
INVARIANTS SuccessIsComplete GoodSucceeds InOrder
CHECK_DEADLOCK FALSE
