SPECIFICATION CSpec
CONSTANTS
 Step = 20
 Low <- MCLow
 High = 400
 Pressures = {9500, 10130}
INVARIANTS Saturated Between IceHoldsLess Emit
PROPERTIES Moister Warmer Thawed
CHECK_DEADLOCK FALSE
