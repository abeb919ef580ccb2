SPECIFICATION Spec
INVARIANT Inv
VIEW View
CONSTANTS
 Steps = 1
 MaxLam = 2
CHECK_DEADLOCK FALSE
