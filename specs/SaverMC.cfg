SPECIFICATION MCSpec
CONSTANTS Gaps = {1, 2, 5} B = 4 N = 6 Decs = {1, 2} Ens = {3} Lifes = {0, 4} Everys = {1, 2} ScEvery = 2
CONSTANT Obs <- SmallObs
INVARIANT Good
CHECK_DEADLOCK FALSE
