SPECIFICATION Spec
CONSTANTS Full = FALSE
INVARIANTS YieldsOK Balance Grazing PartsOK NumbersOK CdfOK ChargeOK
CHECK_DEADLOCK FALSE
