SPECIFICATION ISpec
CONSTANTS Points = 1
 Paths = 1
 Steps = 4
 Parts = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
