SPECIFICATION GenSpec
CONSTANTS Gaps = {1, 2, 3, 4} Dts = {0, 1, 2, 3, 5, 8} Tons = {0, 4, 11} Clouds = {1, 2, 3} N = 16
INVARIANT SameMoment
INVARIANT Emit
CHECK_DEADLOCK FALSE
