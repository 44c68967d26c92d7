SPECIFICATION MSpec
CONSTANTS Depth = 2
INVARIANTS TypeOK Emit
PROPERTIES RefusedChangesNothing OthersUntouched LastWriteWins
CHECK_DEADLOCK FALSE
