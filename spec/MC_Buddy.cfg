SPECIFICATION MSpec
CONSTANTS NX = 4
 NY = 3
 NP = 2
 Depth = 3
 Ans = {0, 3}
INVARIANTS NotSelf SymmetricInRow NoPoleJump Wraps Larger Totals AsList OrderFree MeanInRange ShellFirst MultMonotone
CHECK_DEADLOCK FALSE
