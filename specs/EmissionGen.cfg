SPECIFICATION Spec
CONSTANTS Batches = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
