SPECIFICATION MSpec
CONSTANTS Depth = 2
INVARIANTS TypeOK AnomalyNeedsBoth Emit
PROPERTIES OthersUntouched RefusedChangesNothing PartsApart ReadsBack
CHECK_DEADLOCK FALSE
