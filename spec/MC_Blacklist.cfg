SPECIFICATION MSpec
CONSTANTS Step = 1
INVARIANTS Emit
PROPERTIES ConventionFree
CHECK_DEADLOCK FALSE
