SPECIFICATION CSpec
CONSTANTS
 MaxLen = 11
 Gaps = {1, 2, 3, 4, 6, 11, 12}
INVARIANTS CounterIsDefinition EveryMonthOnce EndsAtReports SilenceBetween NoSilenceWithin Regular NewIsClosed OneNew NewSubmitsOnce StandardIsStable Emit
CHECK_DEADLOCK FALSE
