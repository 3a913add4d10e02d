SPECIFICATION Spec
POSTCONDITION Finished
CHECK_DEADLOCK FALSE
