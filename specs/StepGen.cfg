SPECIFICATION Spec
CONSTANTS N = 12
INVARIANTS Fits Emit
CHECK_DEADLOCK FALSE
