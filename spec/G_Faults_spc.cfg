CONSTANT Focus = "spc"
CONSTANT MaxCards = 8
SPECIFICATION SpecF
CHECK_DEADLOCK FALSE
