SPECIFICATION MSpec
CONSTANTS NX = 360
 NY = 180
 NP = 73
 Last = 3
 Anoms = {0, 16, 60}
INVARIANTS Cleared Ordered Alone Further Prior Range Emit
CHECK_DEADLOCK FALSE
