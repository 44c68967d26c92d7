----------------------------- MODULE BasicChecks -----------------------------
(* Position, date and time checks of one report.  Positions in hundredths of  *)
(* a degree, hours in units of 1/120 hour; NoVal is a missing value.           *)
EXTENDS Calendar
NoVal == -99999
B(x) == IF x THEN 1 ELSE 0
(* e: 0, or -1 or 1 for a value the least bit below or above x *)
Under(x, e, lim) == x < lim \/ (x = lim /\ e < 0)
Over(x, e, lim) == x > lim \/ (x = lim /\ e > 0)
PositionFlagN(lat, elat, lon, elon) == B(Under(lat, elat, -9000) \/ Over(lat, elat, 9000) \/ Under(lon, elon, -18000) \/ Over(lon, elon, 36000))
TimeFlagN(h2, e) == B(h2 = NoVal \/ Under(h2, e, 0) \/ ~Under(h2, e, 2880))
PositionFlag(lat, lon) == B(lat < -9000 \/ lat > 9000 \/ lon < -18000 \/ lon > 36000)
DateFlag(y, m, d) == B(y < 1850 \/ y > 2024 \/ d = NoVal \/ ~ValidDate(y, m, d))
TimeFlag(h2) == B(h2 = NoVal \/ h2 < 0 \/ h2 >= 2880)
AnyBad(v) == PositionFlag(v.lat, v.lon) = 1 \/ DateFlag(v.yr, v.mo, v.dy) = 1 \/ TimeFlag(v.hr) = 1
=============================================================================
