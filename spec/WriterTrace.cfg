SPECIFICATION Spec
CONSTRAINT Constr
POSTCONDITION ReachPost
CHECK_DEADLOCK FALSE
