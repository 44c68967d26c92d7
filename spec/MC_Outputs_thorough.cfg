SPECIFICATION Spec
CONSTANTS
 MaxOps = 6
 Months <- MCMonths
INVARIANTS Aligned Complete InOrder Current Distinct Emit
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
