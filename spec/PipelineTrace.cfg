SPECIFICATION Spec
INVARIANTS Lineage Confluence
CONSTRAINT Constr
POSTCONDITION ReachPost
CHECK_DEADLOCK FALSE
