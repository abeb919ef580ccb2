SPECIFICATION TSpec
INVARIANT Marked
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW Where
CONSTANT Q = 4
