SPECIFICATION Spec
INVARIANTS Inv Static
CONSTANTS MaxSlices = 2
 MaxTurns = 2
 MaxD = 3
 Modes = {"whole", "slices"}
CHECK_DEADLOCK FALSE
