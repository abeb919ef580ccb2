CONSTANTS
 Q = 4
 MaxN = 3
 MaxP = 2
 Ws = {0, 1, 3}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
