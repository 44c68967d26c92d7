-------------------------------- MODULE Sun ---------------------------------
(* Where the sun stands in the sky: the low-precision formulae of the          *)
(* Astronomical Almanac, in integers.  Angles in 1/1000 degree, sines in       *)
(* 1/10000, minutes of universal time.  Good to about a twentieth of a degree  *)
(* from 1850 to 2050.                                                          *)
EXTENDS Calendar, Trig
(* days from 1 January 2000, minutes of the day *)
Days(y, doy) == DayNumber(y, 1, 1) + doy - 1 - DayNumber(2000, 1, 1)
Mean(d, mi, at0, part) == (at0 + d * 985 + (d * part) \div 10000 + ((mi - 720) * 9856) \div 14400) % Turn
SunLong(d, mi) == Mean(d, mi, 280460, 6474)                \* mean longitude
Anomaly(d, mi) == Mean(d, mi, 357528, 6003)
Ecl(d, mi) == LET g == Anomaly(d, mi) IN SunLong(d, mi) + (1915 * Sin(g) + 20 * Sin(2 * g)) \div 10000
SinDec(d, mi) == (3978 * Sin(Ecl(d, mi))) \div 10000        \* sine of the obliquity, 23.44 degrees
CosDec(d, mi) == LET s == SinDec(d, mi) IN Sqrt(100000000 - s * s)
(* hour angle: mean time from noon, longitude, and the equation of time *)
EoT(d, mi) == LET g == Anomaly(d, mi)
                  e == Ecl(d, mi)
              IN (2466 * Sin(2 * e) - 53 * Sin(4 * e) - 1915 * Sin(g) - 20 * Sin(2 * g)) \div 10000
Hour(d, mi, lon) == ((mi - 720) * 250 + lon + EoT(d, mi)) % Turn
(* the sun in the sky of a place: sine of its elevation, and its components to the north and east *)
SinEl(d, mi, lat, lon) ==
  (Sin(lat) * SinDec(d, mi) + ((Cos(lat) * CosDec(d, mi)) \div 10000) * Cos(Hour(d, mi, lon))) \div 10000
North(d, mi, lat, lon) ==
  (Cos(lat) * SinDec(d, mi) - ((Sin(lat) * CosDec(d, mi)) \div 10000) * Cos(Hour(d, mi, lon))) \div 10000
East(d, mi, lat, lon) == (-CosDec(d, mi) * Sin(Hour(d, mi, lon))) \div 10000

(* the instant t minutes earlier (t at most a day): <<year, day of year, minute>> *)
Earlier(y, m, d, mi, t) ==
  IF mi >= t THEN <<y, DayOfYear(y, m, d), mi - t>>
  ELSE LET p == PrevDay(<<y, m, d>>) IN <<p[1], DayOfYear(p[1], p[2], p[3]), mi + 1440 - t>>
=============================================================================
