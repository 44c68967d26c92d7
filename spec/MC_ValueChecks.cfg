SPECIFICATION MSpec
CONSTANTS N = 24
INVARIANTS Monotone Symmetric ShiftFree MissingFails AtNormPasses Interval LowBarOnlyLoosens Emit
CHECK_DEADLOCK FALSE
