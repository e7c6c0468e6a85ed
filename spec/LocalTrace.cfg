SPECIFICATION Spec
INVARIANT OneAnswers
CONSTRAINT Constr
POSTCONDITION ReachPost
CHECK_DEADLOCK FALSE
