SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT SameShape
INVARIANT Surface
INVARIANT FacesWhole
INVARIANT Unique
CONSTANT Variant = "no"
CONSTANT Ids = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20}
CONSTANT Free = 2
