SPECIFICATION MCSpec
CONSTANTS ATOMIC = TRUE COPYFIRST = TRUE KEEPOBS = TRUE FINISH = TRUE
 K = 1 Steps = {24} Bps = {4, 6} Everys = {1, 2, 3} Dts = {0, 5, 9} Clouds = {1, 2} Decs = {1, 3}
INVARIANT Unchanged
INVARIANT Emit
CHECK_DEADLOCK FALSE
