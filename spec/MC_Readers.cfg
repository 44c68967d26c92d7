SPECIFICATION MSpec
CONSTANTS Depth = 3
INVARIANTS OnlyTheLastAccepted PositionsKeepWithin Emit
CHECK_DEADLOCK FALSE
