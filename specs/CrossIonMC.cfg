CONSTANTS
 Tables = 1
 Refs = {2, 3}
 MaxSteps = 3
 MaxPop = 6
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
