SPECIFICATION MSpec
CONSTANTS MaxH = 8
INVARIANTS Partition SameCell CentreBack AgreeInside AgreeInsideC
CHECK_DEADLOCK FALSE
