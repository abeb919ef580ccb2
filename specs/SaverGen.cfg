SPECIFICATION MCSpec
CONSTANTS Gaps = {1, 2, 3, 5, 9} B = 8 N = 24 Decs = {1, 2, 3, 5} Ens = {1, 5, 12} Lifes = {0, 4, 9} Everys = {1, 2, 3} ScEvery = 2
CONSTANT Obs <- GenObs
INVARIANT Good
INVARIANT Emit
CHECK_DEADLOCK FALSE
