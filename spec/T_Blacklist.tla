----------------------------- MODULE T_Blacklist -----------------------------
EXTENDS Blacklist, TraceBase
VARIABLE i
Verdict(v, o) ==
     Clause("blacklist", o.direct = B(Blacklisted(v)) /\ o.bl = B(Blacklisted(v)))
  \cup Clause("wind exclusion", o.wind = B(WindExcluded(v)))
  \cup Clause("humidity exclusion", o.hum = B(HumidityExcluded(v)))
  \cup Clause("air temperature exclusion", o.mat = B(MatExcluded(v)))
  \cup Clause("buoy, drifter, ship and deck 780 markers",
              o.buoy = B(IsBuoy(v)) /\ o.drifter = B(IsDrifter(v)) /\ o.ship = B(IsShip(v)) /\ o.d780 = B(Is780(v)))
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i].in, Recs[i].out)) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
