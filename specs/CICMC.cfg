CONSTANTS
 Q = 2
 MaxN = 3
 MaxP = 2
 Ws = {1, 2}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
