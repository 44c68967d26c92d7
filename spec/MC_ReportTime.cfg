SPECIFICATION MSpec
CONSTANTS Depth = 2
INVARIANTS DtConsistent DtReal Emit
CHECK_DEADLOCK FALSE
