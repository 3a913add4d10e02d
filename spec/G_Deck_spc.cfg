CONSTANT Focus = "spc"
CONSTANT MaxCards = 8
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
