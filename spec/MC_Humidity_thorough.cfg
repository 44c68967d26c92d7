SPECIFICATION CSpec
CONSTANTS
 Step = 5
 Low <- MCLow
 High = 400
 Pressures = {8700, 9500, 10130, 10600}
INVARIANTS Saturated Between IceHoldsLess Emit
PROPERTIES Moister Warmer Thawed
CHECK_DEADLOCK FALSE
