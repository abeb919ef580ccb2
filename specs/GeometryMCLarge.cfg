SPECIFICATION Spec
CONSTANTS R = 2
 W = 3
 N = 5
INVARIANTS ConvexInside OriginInside Crossing Inwards
CHECK_DEADLOCK FALSE
