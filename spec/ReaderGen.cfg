SPECIFICATION GenSpec
CONSTANTS RecSize = 3 BlockRecs = 2 MaxSize = 12 Styles = {"checked"}
CHECK_DEADLOCK FALSE
