SPECIFICATION MSpec
CONSTANTS Last = 4
INVARIANTS Slow Emit
CHECK_DEADLOCK FALSE
