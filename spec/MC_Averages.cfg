SPECIFICATION Spec
CONSTANTS
 Values = {0, 1, 4, 9}
 MaxLen = 5
 Trims = {0, 2, 3, 4, 5, 10}
INVARIANTS InRange Ordered AnyOrder NothingToTrim Resistant SpreadPositive Falling Emit
CHECK_DEADLOCK FALSE
