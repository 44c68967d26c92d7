---------------------------- MODULE T_BasicChecks ----------------------------
EXTENDS BasicChecks, TraceBase
VARIABLE i
E(v, n) == IF n \in DOMAIN v THEN v[n] ELSE 0
P(v) == PositionFlagN(v.lat, E(v, "elat"), v.lon, E(v, "elon"))
T(v) == TimeFlagN(v.hr, E(v, "ehr"))
Bad(v) == P(v) = 1 \/ T(v) = 1 \/ DateFlag(v.yr, v.mo, v.dy) = 1
Verdict(v, o) ==
     Clause("position flag", o.p = P(v) /\ o.fp = o.p)
  \cup Clause("date flag", o.d = DateFlag(v.yr, v.mo, v.dy) /\ o.fd = o.d)
  \cup Clause("time flag", o.t = T(v) /\ o.ft = o.t)
  \cup Clause("day flag raised when position, date or time is bad, else that of the day test",
              IF Bad(v) THEN o.day = 1 ELSE o.day \in {0, 1} /\ o.day = o.daytest)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i].in, Recs[i].out)) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
