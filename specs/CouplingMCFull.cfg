SPECIFICATION Spec
INVARIANTS Inv Static
CONSTANTS MaxSlices = 3
 MaxTurns = 1
 MaxD = 5
 Modes = {"whole", "slices"}
CHECK_DEADLOCK FALSE
