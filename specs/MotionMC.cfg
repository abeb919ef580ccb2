SPECIFICATION Spec
CONSTANTS Vs <- V3 Ts <- T4 Hs = {1, 2} Steps = 1 Both = FALSE
CONSTANT Gs <- GsDef
INVARIANTS Straight Drift Energy Along Sense Frequency Back Alone
CHECK_DEADLOCK FALSE
