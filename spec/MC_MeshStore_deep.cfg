CONSTANTS NI = 3 CI = 2 GN = 2 Depth = 6 Mut = ""
SPECIFICATION Spec
INVARIANT WellFormed
PROPERTY Stable
CHECK_DEADLOCK FALSE
