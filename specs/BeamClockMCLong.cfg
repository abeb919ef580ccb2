SPECIFICATION MCSpec
CONSTANTS Bs = {1, 2, 3, 5, 9} Starts = {0, 3}
CONSTANT GapLists <- Long
INVARIANT MCInv
INVARIANT Emit
PROPERTY Contiguous
PROPERTY NewOnce
CHECK_DEADLOCK FALSE
