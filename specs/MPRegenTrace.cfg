SPECIFICATION TraceSpec
CONSTANTS Tol = 1 Ref0 = 1024 NRegen = 20 NLow = 4 NAfter = 8 CutN = 1 CutD = 16 Dx = 65 Dy = 65 Nv = 9
CONSTANT XAbs <- TraceXAbs
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
