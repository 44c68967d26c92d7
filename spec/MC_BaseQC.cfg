SPECIFICATION MSpec
CONSTANTS Depth = 3
INVARIANTS Agree DayWhenBad FlagValues Emit
PROPERTIES Idempotent OnlyHour
CHECK_DEADLOCK FALSE
