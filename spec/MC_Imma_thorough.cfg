SPECIFICATION CSpec
CONSTANTS
 Choice = {1, 8, 98, 99}
 MaxAtts = 4
INVARIANTS RoundTrip ReaderIsDefinition NoTrailingBlank Emit
CHECK_DEADLOCK FALSE
