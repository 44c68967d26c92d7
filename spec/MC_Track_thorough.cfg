SPECIFICATION MSpec
CONSTANTS Last = 4
 Steps = {1300, 3300, 9000}
INVARIANTS Ends OnTheWay Slow Triangle Emit
CHECK_DEADLOCK FALSE
