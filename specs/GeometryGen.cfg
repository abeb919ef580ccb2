SPECIFICATION Spec
CONSTANTS Points = 60
 Paths = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
