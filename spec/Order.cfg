SPECIFICATION Spec
CONSTANTS Bytes = {0, 127, 128} MaxN = 5 Word = 2 Vec = 4
INVARIANTS Correct EqualSoFar Antisymmetric Transitive
CHECK_DEADLOCK FALSE
