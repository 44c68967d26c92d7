SPECIFICATION MSpec
CONSTANTS
 Depth = 6
INVARIANTS PartitionOK SplitOK NoDuplicates Emit
PROPERTIES SortOnlyPermutes SplitLosesNothing
CHECK_DEADLOCK FALSE
