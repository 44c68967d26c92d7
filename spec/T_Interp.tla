------------------------------- MODULE T_Interp --------------------------------
EXTENDS Interp, Calendar, TraceBase
G == INSTANCE Grid
CF == INSTANCE ClimField
VARIABLE i
Q == 90000
FillV(v, o) == Clause("missing corners are filled from the present ones", o.q = Fill(v.q))
Box(v, o) == Clause("interpolated value", o.v = Num(v.q, v.u, v.v, v.w, v.h))
MM(v, o) == LET P == {k \in 1..Len(v.xs) : v.xs[k] # NoVal}
                RECURSIVE Sum(_)
                Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN v.xs[k] + Sum(S \ {k})
            IN Clause("mean of the values present", IF P = {} THEN o.v = NoVal ELSE o.v * Cardinality(P) = 60 * Sum(P))
(* the interpolation test field: even values, an irregular mask *)
Gone(t, y, x) == ((t + y * y + 2 * x * x + x * y) % 5) \in {0, 1, 2}
Val(t, y, x) == IF Gone(t, y, x) THEN NoVal ELSE 2 * ((t * 7 + y * 131 + x * 17) % 499)
Cell(t, lat, lon) == Val(t, G!Row(lat, Q, 1000), G!Col(lon, Q, 1000))
ClampLat(y) == IF y > 89500 THEN 89500 ELSE IF y < -89500 THEN -89500 ELSE y
Around(v) == LET t == CF!Slice(v.n, v.mo, v.dy) IN
   {Cell(t, a, b) : a \in {x \in {v.lat + 1, v.lat - 1} : x < Q /\ x > -Q}, b \in {v.lon + 1, v.lon - 1}}
(* centre at or west of the longitude; centre at or north of the latitude *)
X1(lon) == ((lon + 500) \div 1000) * 1000 - 500
Y2(lat) == -(((500 - lat) \div 1000) * 1000 - 500)
Expect(v) ==
   IF v.dy = NoVal \/ ~CF!RealDay(v.mo, v.dy) THEN NoVal
   ELSE IF Around(v) \subseteq {NoVal} THEN NoVal
   ELSE LET t == CF!Slice(v.n, v.mo, v.dy)
            x1 == X1(v.lon) x2 == x1 + 1000
            y2 == Y2(v.lat) y1 == y2 - 1000
            q == Fill(<< << Cell(t, ClampLat(y1), x1), Cell(t, ClampLat(y2), x1) >>,
                         << Cell(t, ClampLat(y1), x2), Cell(t, ClampLat(y2), x2) >> >>)
        IN Num(q, (v.lon - x1) \div 125, (v.lat - y1) \div 125, 8, 8)
Clim(v, o) == Clause("interpolated climatology (" \o v.via \o ")", o.v = Expect(v))
Verdict(r) == CASE r.k = "fill" -> FillV(r.in, r.out)
                [] r.k = "box" -> Box(r.in, r.out)
                [] r.k = "mean" -> MM(r.in, r.out)
                [] r.k = "clim" -> Clim(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
