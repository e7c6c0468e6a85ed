SPECIFICATION Spec
CONSTANTS Bytes = {0, 255} MaxN = 9 Word = 2 Vec = 4
INVARIANTS Correct EqualSoFar Antisymmetric Transitive
CHECK_DEADLOCK FALSE
