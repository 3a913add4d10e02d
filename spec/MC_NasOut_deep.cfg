SPECIFICATION Spec
INVARIANTS SameModel Distinct AsSpecified
CHECK_DEADLOCK FALSE
CONSTANTS Variant = "none" MaxSets = 3 MaxAns = 1 Items = {1, 2}
