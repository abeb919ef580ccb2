SPECIFICATION Spec
CONSTANTS Vs = {0, 1} Ts <- T3 Hs = {1} Steps = 4 Both = TRUE
CONSTANT Gs <- GsDef2
INVARIANTS Straight Drift Energy Along Sense Frequency Back Alone Covered
CHECK_DEADLOCK FALSE
