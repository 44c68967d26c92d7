SPECIFICATION MSpec
CONSTANTS Full = 1
INVARIANTS FillOnlyFromPresent KeepPresent Between AtCorners LinearExact Emit
CHECK_DEADLOCK FALSE
