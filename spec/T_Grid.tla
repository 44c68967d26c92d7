------------------------------- MODULE T_Grid ---------------------------------
(* Latitudes and longitudes in thousandths of a degree.                         *)
EXTENDS Grid, TraceBase
VARIABLE i
Q == 90000
(* a position may lie a hair (less than any other distance here) beside a mark:  *)
(* everything is doubled and the hair is one                                     *)
Hair(v, n) == IF n \in DOMAIN v THEN (IF v[n] > 0 THEN 1 ELSE IF v[n] < 0 THEN -1 ELSE 0) ELSE 0
H2 == 2 * Q
(* on a border of a grid whose size has no exact binary form the neighbour is accepted too *)
Inexact(r) == r = 50
Near(k, ok(_), r, border) == ok(k) \/ (Inexact(r) /\ border /\ (ok(k - 1) \/ ok(k + 1)))
Cell(v, o) ==
  LET r == 2 * v.r
      lat == 2 * v.lat + Hair(v, "ey")
      lon == 2 * v.lon + Hair(v, "ex") IN
     Clause("row contains the latitude, borders south", LET ok(k) == InRow(k, lat, H2, r) IN Near(o.y, ok, v.r, lat % r = 0))
  \cup Clause("row contains the latitude, borders to the pole", LET ok(k) == InRowM(k, lat, H2, r) IN Near(o.ym, ok, v.r, lat % r = 0))
  \cup Clause("column contains the longitude, borders east", LET ok(k) == InCol(k, lon, H2, r) IN Near(o.x, ok, v.r, lon % r = 0))
  \cup Clause("column contains the longitude, borders away from 0",
              lon > 2 * H2 \/ lon < -2 * H2 \/ LET ok(k) == InColM(k, lon, H2, r) IN Near(o.xm, ok, v.r, lon % r = 0))
  \cup Clause("the other longitude convention gives the same column",
              LET ok(k) == InCol(k, lon, H2, r) IN Near(o.x2, ok, v.r, lon % r = 0))
Centre(v, o) ==
     Clause("row centre", o.lat2 = RowCentre2(v.y, Q, v.r))
  \cup Clause("column centre", o.lon2 = ColCentre2(v.x, Q, v.r))
  \cup Clause("back to the same row", o.y = v.y /\ o.ym = v.y)
  \cup Clause("back to the same column", o.x = v.x /\ o.xm = v.x)
Clamp(y) == IF y > 895 THEN 895 ELSE IF y < -895 THEN -895 ELSE y
(* corners in tenths *)
Box(v, o) ==
     Clause("corners are cell centres", \A c \in {o.x1, o.x2, o.y1, o.y2} : c % 10 = 5)
  \cup Clause("the box contains the longitude", o.x2 = o.x1 + 10 /\ LET l == 2 * v.lon + Hair(v, "ex") IN o.x1 * 200 <= l /\ l <= o.x2 * 200)
  \cup Clause("the box contains the latitude", o.y2 = o.y1 + 10 /\ LET l == 2 * v.lat + Hair(v, "ey") IN o.y1 * 200 <= l /\ l <= o.y2 * 200)
  \cup Clause("corners kept on the grid", o.cy1 = Clamp(o.y1) /\ o.cy2 = Clamp(o.y2) /\ o.cx1 = o.x1 /\ o.cx2 = o.x2)
Verdict(r) == CASE r.k = "cell" -> Cell(r.in, r.out)
                [] r.k = "centre" -> Centre(r.in, r.out)
                [] r.k = "box" -> Box(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
