SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Spc = 1
CONSTANT Mpc = 2
CONSTANT Load = 3
