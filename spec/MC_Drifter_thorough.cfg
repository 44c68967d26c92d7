SPECIFICATION CSpec
CONSTANTS
 MaxLen = 6
 Steps = {0, 16, 48}
 Places = {17998, 18000, 18001}
INVARIANTS WalkIsDefinition FlagsAreASuffix MovingAtEndIsFree TooShortIsFree NeverMovedIsAground StretchesInWindow NeverMovedIsNotFast Emit
CHECK_DEADLOCK FALSE
