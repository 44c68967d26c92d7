SPECIFICATION CSpec
CONSTANTS
 MaxLen = 5
 Steps = {16, 32}
 Places = {17999, 18000, 18001}
INVARIANTS WalkIsDefinition FlagsAreASuffix MovingAtEndIsFree TooShortIsFree NeverMovedIsAground StretchesInWindow NeverMovedIsNotFast Emit
CHECK_DEADLOCK FALSE
