CONSTANTS NI = 2 CI = 2 GN = 2 Depth = 5 Mut = "redefine"
SPECIFICATION Spec
INVARIANT WellFormed
PROPERTY Stable
CHECK_DEADLOCK FALSE
