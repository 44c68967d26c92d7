SPECIFICATION Spec
INVARIANTS OwnReports Once Disjoint WholeVoyages AllMonths NoneExcluded
CONSTANTS
 LAST = 1
 MAXREC = 2
CHECK_DEADLOCK FALSE
