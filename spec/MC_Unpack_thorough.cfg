SPECIFICATION Spec
CONSTANTS
 Programs = {1, 2, 3}
 Atomic = TRUE
 MaxActs = 6
INVARIANTS NoPart WholeOnly Leftover Emit
PROPERTIES Stays
CHECK_DEADLOCK FALSE
