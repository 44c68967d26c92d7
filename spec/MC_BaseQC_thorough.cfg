SPECIFICATION MSpec
CONSTANTS Depth = 4
INVARIANTS Agree DayWhenBad FlagValues Emit
PROPERTIES Idempotent OnlyHour
CHECK_DEADLOCK FALSE
