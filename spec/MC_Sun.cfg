SPECIFICATION CSpec
CONSTANTS
 Years = {1900, 1979, 2000}
 Step = 180
INVARIANTS BackAndOn UnitVector SameConvention Tropics AtPole PolarSeasons NoonIsHighest Emit
PROPERTIES Smooth Turning
CHECK_DEADLOCK FALSE
