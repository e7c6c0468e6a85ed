SPECIFICATION Spec
CONSTANTS RecSize = 4 BlockRecs = 2 MaxSize = 24 Styles = {"eof"}
INVARIANTS TornRefused WholeAccepted OnlyWhole
CHECK_DEADLOCK FALSE
