SPECIFICATION MSpec
CONSTANTS Depth = 4
INVARIANTS OnlyTheLastAccepted PositionsKeepWithin Emit
CHECK_DEADLOCK FALSE
