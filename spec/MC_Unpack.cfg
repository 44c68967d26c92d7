SPECIFICATION Spec
CONSTANTS
 Programs = {1, 2}
 Atomic = TRUE
 MaxActs = 5
INVARIANTS NoPart WholeOnly Leftover Emit
PROPERTIES Stays
CHECK_DEADLOCK FALSE
