SPECIFICATION Spec
CONSTANTS N = 3
 Depth = 3
INVARIANTS Agree Positive
CHECK_DEADLOCK FALSE
