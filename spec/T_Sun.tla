-------------------------------- MODULE T_Sun --------------------------------
EXTENDS Sun, TraceBase
VARIABLE i
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, e) == Abs(a - b) <= e
(* where the sun was, as the code says: elevation and azimuth in 1/1000 degree *)
VSun(v, o) ==
  LET d == Days(v.y, DayOfYear(v.y, v.m, v.d))
      lat == v.lat * 10
      lon == v.lon * 10
  IN Clause("elevation of the sun", o.el \in -90000..90000 /\ Near(Sin(o.el), SinEl(d, v.mi, lat, lon), 12))
  \cup Clause("declination of the sun", Near(Sin(o.dec), SinDec(d, v.mi), 12))
  \cup Clause("azimuth of the sun is a compass direction", o.az \in 0..360000)
  \cup Clause("azimuth of the sun (not at the poles, which have none)", Abs(v.lat) >= 8990 \/
              LET ce == Cos(o.el) IN
              /\ Near((ce * Cos(o.az)) \div 10000, North(d, v.mi, lat, lon), 25)
              /\ Near((ce * Sin(o.az)) \div 10000, East(d, v.mi, lat, lon), 25))
  \cup Clause("the same in the other longitude convention", Near(o.el, o.el2, 3))
(* el: the elevation which the code itself gives for the instant e *)
VDay(v, o) ==
  LET e == Earlier(v.y, v.m, v.d, v.mi, v.t)
      s == SinEl(Days(e[1], e[2]), e[3], v.lat * 10, v.lon * 10)
  IN Clause("generator: the earlier instant", v.e = e)
  \cup Clause("day exactly when the sun was up",
              /\ (s > 12 => o.r = 1) /\ (s < -12 => o.r = 0) /\ o.r \in {0, 1}
              /\ (o.el > 2 => o.r = 1) /\ (o.el < -2 => o.r = 0))
  \cup Clause("the same in the other longitude convention", Abs(o.el) > 3 => o.r2 = o.r)
  \cup Clause("the day flag of a report is the day test", o.flag = o.r)
(* the day test of the tracking checks: limit of elevation in 1/10 degree *)
VTrack(v, o) ==
  LET s == SinEl(Days(v.y, DayOfYear(v.y, v.m, v.d)), v.mi, v.lat * 10, v.lon * 10)
      lim == Sin(v.lim * 100)
  IN Clause("tracking day exactly when the sun is above the limit",
            /\ (s > lim + 12 => o.r = 1) /\ (s < lim - 12 => o.r = 0) /\ o.r \in {0, 1}
            /\ (o.el > v.lim * 100 + 2 => o.r = 1) /\ (o.el < v.lim * 100 - 2 => o.r = 0))
  \cup Clause("the limit is 2.5 degrees below the horizon by itself", v.lim = -25 => o.dflt = o.r)
(* fields missing or impossible *)
VRefuse(v, o) == Clause("missing or impossible values are refused", o.r = Exc)
Verdict(r) == CASE r.k = "sun" -> VSun(r.in, r.out)
                     [] r.k = "day" -> VDay(r.in, r.out)
                     [] r.k = "track" -> VTrack(r.in, r.out)
                     [] r.k = "refuse" -> VRefuse(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
