SPECIFICATION MSpec
CONSTANTS Depth = 7
INVARIANTS DescribesNeighbours Emit
CHECK_DEADLOCK FALSE
