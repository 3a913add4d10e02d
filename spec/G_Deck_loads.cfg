CONSTANT Focus = "loads"
CONSTANT MaxCards = 8
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
