SPECIFICATION CSpec
CONSTANTS
 FirstYear = 1895
 LastYear = 1909
INVARIANTS NumbersFollow DayOfYearFollows Real PentadInRange
PROPERTIES BackAgain PentadSteps
CHECK_DEADLOCK FALSE
