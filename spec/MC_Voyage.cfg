SPECIFICATION MSpec
CONSTANTS Depth = 5
INVARIANTS DescribesNeighbours Emit
CHECK_DEADLOCK FALSE
