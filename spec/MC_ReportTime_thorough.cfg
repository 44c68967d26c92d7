SPECIFICATION MSpec
CONSTANTS Depth = 3
INVARIANTS DtConsistent DtReal Emit
CHECK_DEADLOCK FALSE
