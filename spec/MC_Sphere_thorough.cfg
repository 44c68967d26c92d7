SPECIFICATION CSpec
CONSTANTS
 Step = 15000
 Lons <- MCMoreLons
INVARIANTS Legal Measured RoundTheWorld ZeroOnlyAtHome FarthestAtAntipodes Ahead Triangle General Emit
PROPERTIES EachStep
CHECK_DEADLOCK FALSE
