--------------------------- MODULE MC_BasicChecks ----------------------------
(* All combinations of boundary values; laws of the checks as invariants.      *)
EXTENDS BasicChecks, TLC, Json
CONSTANTS Full
VARIABLE v
Lats == {-9001, -9000, 0, 9000, 9001}
Lons == {-18001, -18000, 36000, 36001}
Yrs == {1849, 1850, 1900, 2000, 2024, 2025}
Mos == {0, 1, 2, 4, 12, 13}
Dys == {NoVal, 0, 1, 28, 29, 30, 31, 32}
Hrs == {NoVal, -1, 0, 2879, 2880}
Base == [lat |-> 1000, lon |-> 2000, yr |-> 1990, mo |-> 7, dy |-> 15, hr |-> 1200]
MInit == v \in {[Base EXCEPT !.lat = a, !.lon = b, !.hr = h] : a \in Lats, b \in Lons, h \in Hrs}
           \cup {[Base EXCEPT !.yr = y, !.mo = m, !.dy = d] : y \in Yrs, m \in Mos, d \in Dys}
MNext == UNCHANGED v
MSpec == MInit /\ [][MNext]_v
ValidHasSuccessor == DateFlag(v.yr, v.mo, v.dy) = 0 =>
    LET n == NextDay(<<v.yr, v.mo, v.dy>>) IN ValidDate(n[1], n[2], n[3]) /\ PrevDay(n) = <<v.yr, v.mo, v.dy>>
Emit == PrintT("BEH basic " \o ToJson(v))
=============================================================================
