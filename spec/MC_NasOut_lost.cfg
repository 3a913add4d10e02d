SPECIFICATION Spec
INVARIANTS SameModel Distinct AsSpecified
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "lost" MaxSets = 2 MaxAns = 1 Items = {1, 2}
