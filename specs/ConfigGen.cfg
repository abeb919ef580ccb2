SPECIFICATION Spec
CONSTANTS MaxEdits = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
