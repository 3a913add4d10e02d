SPECIFICATION Spec
CONSTANT Late = FALSE
INVARIANTS CodeTold WrittenTold ZeroOnlyForSuccess
PROPERTY Ended
CHECK_DEADLOCK FALSE
