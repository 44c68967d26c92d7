------------------------------- MODULE MC_Sun --------------------------------
(* A clock that moves through chosen days, and the laws of the sun over it.    *)
EXTENDS Sun, TLC, Json, FiniteSets
CONSTANTS Years, Step
VARIABLES day, mi, start
vars == <<day, mi, start>>
Starts == {<<y, m, d>> : y \in Years, m \in 1..12, d \in {1, 10, 20, 21, 28, 29, 30, 31}}
Init == /\ day \in {s \in Starts : ValidDate(s[1], s[2], s[3])}
        /\ mi = 0 /\ start = day
Next == /\ day = start
        /\ IF mi + Step < 1440 THEN mi' = mi + Step /\ day' = day
           ELSE mi' = mi + Step - 1440 /\ day' = NextDay(day)
        /\ start' = start
CSpec == Init /\ [][Next]_vars
D == Days(day[1], DayOfYear(day[1], day[2], day[3]))
Lats == {-90000, -75000, -40000, 0, 100, 30000, 60000, 80000, 90000}
Lons == {-180000, -90000, 0, 100000}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, e) == Abs(a - b) <= e
(* going back t minutes and on again comes home *)
BackAndOn == \A t \in {0, 30, 60, 90, 720, 1439, 1440} :
  LET e == Earlier(day[1], day[2], day[3], mi, t)
  IN /\ e[3] \in 0..1439
     /\ Days(e[1], e[2]) * 1440 + e[3] + t = D * 1440 + mi
     /\ e[2] \in 1..(IF Leap(e[1]) THEN 366 ELSE 365)
(* elevation, north and east are one direction *)
UnitVector == \A la \in Lats, lo \in Lons :
  LET u == SinEl(D, mi, la, lo)
      n == North(D, mi, la, lo)
      e == East(D, mi, la, lo)
  IN Near((u * u + n * n + e * e) \div 10000, 10000, 12)
SameConvention == \A la \in Lats, lo \in Lons : SinEl(D, mi, la, lo) = SinEl(D, mi, la, lo + 360000)
(* the sun is within the tropics, and stands the same at a pole all day *)
Tropics == Abs(SinDec(D, mi)) <= 3980
AtPole == \A lo \in Lons : Near(SinEl(D, mi, 90000, lo), SinDec(D, mi), 2)
(* polar night and day in the proper season, at 75 degrees *)
PolarSeasons ==
  /\ day[2] = 12 => \A lo \in Lons : SinEl(D, mi, 80000, lo) < 0 /\ SinEl(D, mi, -75000, lo) > 0
  /\ day[2] = 6 => \A lo \in Lons : SinEl(D, mi, 80000, lo) > 0 /\ SinEl(D, mi, -75000, lo) < 0
(* highest near local noon: the mean noon of the place is within 17 minutes of it *)
NoonIsHighest == \A la \in {-40000, 0, 60000} : \A k \in 1..11 :
  LET lo == 180000 - mi * 250 IN    \* where it is noon now
  SinEl(D, mi, la, lo) >= SinEl(D, mi, la, lo + 10000 + 15000 * k) - 2
(* the declination never jumps *)
Smooth == [][Near(SinDec(D, mi), SinDec(D', mi'), 40)]_vars
(* the hour angle turns with the clock *)
Turning == [][Near((Hour(D', mi', 0) - Hour(D, mi, 0)) % 360000, Step * 250, 90)]_vars
(* borders for replay: every start day at 00:00 and just after *)
Emit == (mi = 0 /\ day = start) =>
  \A t \in {60, 1440} : PrintT("BEH day " \o ToJson([y |-> day[1], m |-> day[2], d |-> day[3], mi |-> (IF day[3] % 2 = 0 THEN 0 ELSE 15), t |-> t]))
=============================================================================
