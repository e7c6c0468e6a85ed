SPECIFICATION Spec
CONSTANTS MaxItems = 12 AppCap = 3 StreamCap = 5 MaxFaults = 3 Styles = {"throw", "final"}
INVARIANTS SuccessIsComplete GoodSucceeds InOrder
CHECK_DEADLOCK FALSE
