SPECIFICATION MSpec
CONSTANTS MaxH = 12
INVARIANTS Partition SameCell CentreBack AgreeInside AgreeInsideC
CHECK_DEADLOCK FALSE
