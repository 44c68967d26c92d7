SPECIFICATION Spec
CONSTANTS
 MaxActs = 4
INVARIANTS Emit
PROPERTIES Sound NoneOnly Improves
CHECK_DEADLOCK FALSE
