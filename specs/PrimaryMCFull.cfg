SPECIFICATION Spec
INVARIANT Inv
VIEW View
CONSTANTS
 Steps = 3
 MaxLam = 1
CHECK_DEADLOCK FALSE
