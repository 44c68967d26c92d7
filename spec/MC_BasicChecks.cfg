SPECIFICATION MSpec
CONSTANTS Full = 1
INVARIANTS ValidHasSuccessor Emit
CHECK_DEADLOCK FALSE
