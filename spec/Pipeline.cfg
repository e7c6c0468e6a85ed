SPECIFICATION Spec
CONSTANTS NF = 2 K = 2 Slots = {1, 2} Counts = {1, 2} MaxOps = 4 Limits = {1, 9}
VIEW View
INVARIANTS Lineage Confluence SortLaws TopLaws LookupLaws
CHECK_DEADLOCK FALSE
