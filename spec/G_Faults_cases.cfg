CONSTANT Focus = "cases"
CONSTANT MaxCards = 8
SPECIFICATION SpecF
CHECK_DEADLOCK FALSE
