CONSTANT N = 6
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
