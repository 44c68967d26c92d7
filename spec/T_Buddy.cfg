SPECIFICATION TraceSpec
CONSTANTS NX = 360
 NY = 180
 NP = 73
CHECK_DEADLOCK FALSE
