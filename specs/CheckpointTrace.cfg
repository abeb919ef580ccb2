SPECIFICATION TSpec
CONSTANTS ATOMIC = TRUE COPYFIRST = TRUE KEEPOBS = TRUE FINISH = TRUE
INVARIANT Marked
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW Where
