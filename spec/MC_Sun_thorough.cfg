SPECIFICATION CSpec
CONSTANTS
 Years = {1850, 1851, 1899, 1900, 1901, 1904, 1950, 1976, 1977, 1979, 1980, 1999, 2000, 2001, 2024}
 Step = 30
INVARIANTS BackAndOn UnitVector SameConvention Tropics AtPole PolarSeasons NoonIsHighest Emit
PROPERTIES Smooth Turning
CHECK_DEADLOCK FALSE
