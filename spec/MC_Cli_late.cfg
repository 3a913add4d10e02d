SPECIFICATION Spec
CONSTANT Late = TRUE
INVARIANTS CodeTold WrittenTold
CHECK_DEADLOCK FALSE
