SPECIFICATION CSpec
CONSTANTS
 MaxLen = 8
 Gaps = {1, 2, 3, 5, 8}
INVARIANTS CounterIsDefinition EveryMonthOnce EndsAtReports SilenceBetween NoSilenceWithin Regular NewIsClosed OneNew NewSubmitsOnce StandardIsStable Emit
CHECK_DEADLOCK FALSE
