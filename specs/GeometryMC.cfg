SPECIFICATION Spec
CONSTANTS R = 2
 W = 2
 N = 4
INVARIANTS ConvexInside OriginInside Crossing Inwards
CHECK_DEADLOCK FALSE
