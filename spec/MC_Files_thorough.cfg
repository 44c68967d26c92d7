SPECIFICATION Spec
CONSTANTS
 MaxActs = 5
INVARIANTS Emit
PROPERTIES Sound NoneOnly Improves
CHECK_DEADLOCK FALSE
