SPECIFICATION MSpec
CONSTANTS
 Depth = 5
INVARIANTS PartitionOK SplitOK NoDuplicates Emit
PROPERTIES SortOnlyPermutes SplitLosesNothing
CHECK_DEADLOCK FALSE
