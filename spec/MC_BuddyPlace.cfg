SPECIFICATION MSpec
CONSTANTS NX = 360
 NY = 180
 NP = 73
INVARIANTS Emit PoleRow Equator
CHECK_DEADLOCK FALSE
