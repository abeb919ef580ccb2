SPECIFICATION MCSpec
CONSTANTS Gaps = {1, 2, 3} Dts = {0, 1, 2, 4} Tons = {0, 3} Clouds = {1, 3} N = 6
INVARIANT SameMoment
INVARIANT Fresh
INVARIANT OffBefore
PROPERTY NotTooOften
CHECK_DEADLOCK FALSE
