SPECIFICATION Spec
CONSTANTS
 Values = {0, 1, 4, 9}
 MaxLen = 7
 Trims = {0, 2, 3, 4, 5, 10}
INVARIANTS Emit InRange Ordered AnyOrder NothingToTrim Resistant SpreadPositive Falling
CHECK_DEADLOCK FALSE
