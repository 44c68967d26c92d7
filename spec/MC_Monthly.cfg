SPECIFICATION Spec
INVARIANTS OwnReports Once Disjoint WholeVoyages AllMonths NoneExcluded
CONSTANTS
 LAST = 2
 MAXREC = 1
CHECK_DEADLOCK FALSE
