SPECIFICATION CSpec
CONSTANTS
 FirstYear = 1599
 LastYear = 2101
INVARIANTS NumbersFollow DayOfYearFollows Real PentadInRange
PROPERTIES BackAgain PentadSteps
CHECK_DEADLOCK FALSE
