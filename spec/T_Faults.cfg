SPECIFICATION SpecF
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
