SPECIFICATION PSpec
CONSTANTS
 Legs = 4
 Starts <- MCStarts
 Speeds <- MCSpeeds
 Gaps <- MCGaps
INVARIANTS ComesTrue NowIsHere Emit
PROPERTIES NeverLate
CHECK_DEADLOCK FALSE
