SPECIFICATION MCSpec
CONSTANTS ATOMIC = TRUE COPYFIRST = TRUE KEEPOBS = FALSE FINISH = TRUE
 K = 2 Steps = {9} Bps = {2, 3} Everys = {1, 3} Dts = {0, 2, 5} Clouds = {1, 2} Decs = {1, 2}
VIEW Abstract
INVARIANT NeverStuck
INVARIANT Available
INVARIANT Unchanged
INVARIANT Physics
INVARIANT SameOutput
CHECK_DEADLOCK FALSE
