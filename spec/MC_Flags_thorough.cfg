SPECIFICATION MSpec
CONSTANTS Depth = 3
INVARIANTS TypeOK Emit
PROPERTIES RefusedChangesNothing OthersUntouched LastWriteWins
CHECK_DEADLOCK FALSE
