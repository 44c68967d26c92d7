SPECIFICATION CSpec
CONSTANTS
 Step = 30000
 Lons <- MCLons
INVARIANTS Legal Measured RoundTheWorld ZeroOnlyAtHome FarthestAtAntipodes Ahead Triangle General Emit
PROPERTIES EachStep
CHECK_DEADLOCK FALSE
