SPECIFICATION Spec
CONSTANTS Full = TRUE
INVARIANTS YieldsOK Balance Grazing PartsOK NumbersOK CdfOK ChargeOK
CHECK_DEADLOCK FALSE
