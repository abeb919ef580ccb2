SPECIFICATION Spec
CONSTANTS Tol = 0 Ref0 = 4 NRegen = 4 NLow = 2 NAfter = 3 CutN = 1 CutD = 8 Cells = {1, 2, 3} Charges = {1, 4, 7, 30}
CONSTANT XAbs <- CellX
INVARIANT MCInv
PROPERTY ChargeKept
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
