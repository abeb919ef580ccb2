SPECIFICATION WSpec
INVARIANT Marked
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW Where
