SPECIFICATION TSpec
INVARIANT Marked
INVARIANT TInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
