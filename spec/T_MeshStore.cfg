CONSTANTS Mut = ""
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
