------------------------------ MODULE T_Sphere -------------------------------
(* p, q, r: places; distances in metres, angles in 1/1000 degree               *)
EXTENDS Sphere, TraceBase
VARIABLE i
Near(a, b, e) == Abs(a - b) <= e
(* in between, where course and path are well defined *)
Clear(p, ang) == ang \in 300..179700 /\ Abs(p[1]) <= 89500
(* beside a pole but not on it: the course turns fast, and is still a course *)
Beside(p, ang) == ang \in 300..179700 /\ Abs(p[1]) \in 89501..89995
VPair(v, o) ==
  LET p == v.p
      q == v.q
      ex == Exact(p, q)
  IN Clause("a distance is between zero and half way round", o.d \in 0..(HalfWay + 1) /\ o.ang \in 0..Half)
  \cup Clause("distance is the angle times the radius", Near(o.d, Metres(o.ang), 60))
  \cup Clause("symmetric", Near(o.d, o.ds, 1))
  \cup Clause("the same in every longitude convention", Near(o.d, o.dc, 1) /\ Near(o.d, o.dw, 1))
  \cup Clause("zero exactly for equal places", (SamePlace(p, q) => o.d = 0) /\ (o.d = 0 => Abs(p[1]) > 88000 \/ SamePlace(p, q)) /\ (p = q => o.zero = 1))
  \cup Clause("arc length along meridians and the equator", ex => Near(o.d, Metres(Arc(p, q)), 3) /\ Near(o.ang, Arc(p, q), 1))
  \cup Clause("cosine of the distance", Near(Cos(o.ang), Up(p, q), 8))
  \cup Clause("sine of the distance", LET n == ToNorth(p, q)
                                          e == ToEast(p, q)
                                      IN Near(Mul(Sin(o.ang), Sin(o.ang)), Mul(n, n) + Mul(e, e), 24))
  \cup Clause("no third place shortens the way", o.d <= o.dr + o.rd + 1)
  \cup Clause("a course is a compass direction", o.c \in 0..Turn)
  \cup Clause("course along meridians and the equator", (ex /\ Clear(p, o.ang)) => \E c \in Directions(p, q) : Angle(o.c, c) <= 2)
  \cup Clause("course", Clear(p, o.ang) => /\ Near(Mul(Sin(o.ang), Cos(o.c)), ToNorth(p, q), 14)
                                           /\ Near(Mul(Sin(o.ang), Sin(o.c)), ToEast(p, q), 14))
  \cup Clause("the same course in every longitude convention", Clear(p, o.ang) => Angle(o.c, o.cc) <= 2)
  \cup Clause("every course leads away from a pole", (Pole(p) /\ o.ang \in 300..179700) => Angle(o.c, IF p[1] > 0 THEN South ELSE North) <= 2)
  \cup Clause("no course between equal places", p = q => o.c = 0)
  \cup Clause("following the course for the distance arrives", (Clear(p, o.ang) => o.arr <= 5) /\ (Beside(p, o.ang) => o.arr <= 200))
  \cup Clause("a point in between divides the way in its fraction", o.ang <= 179700 =>
              Near(8 * o.m1, v.f * o.d, 16) /\ Near(8 * o.m2, (8 - v.f) * o.d, 16))
  \cup Clause("a point in between is a place", o.ang <= 179700 => o.m1 # -1 /\ o.mlat \in -Quarter..Quarter /\ (p = q \/ o.mlon \in -Half..Half))
VGo(v, o) ==
  LET p == v.p IN
  Clause("arrives at a place", o.lat \in -Quarter..Quarter /\ o.lon \in -Half..Half)
  \cup Clause("arrives at the distance", Near(o.d, Metres(v.a), 4))
  \cup Clause("latitude reached", Near(Sin(o.lat), Mul(Sin(p[1]), Cos(v.a)) + Mul(Mul(Cos(p[1]), Sin(v.a)), Cos(v.c)), 8))
  \cup Clause("exactly along meridians and the equator",
              (v.c \in {North, South} /\ Abs(p[1]) <= 89900) \/ (v.c \in {East, West} /\ p[1] = 0) =>
              LET q == Along(p, v.c, v.a) IN
              /\ Near(o.lat, q[1], 1)
              /\ Abs(q[1]) < 89900 => Angle(o.lon, q[2]) <= 2)
  \cup Clause("the course kept is the course from the start", (Clear(p, v.a) => Angle(o.c, v.c) <= 3) /\ (Beside(p, v.a) => Angle(o.c, v.c) <= 40))
  \cup Clause("and back again", (Clear(<<o.lat, o.lon>>, v.a) /\ Abs(p[1]) <= 89500) => o.home <= 5)
  \cup Clause("the same journey in every longitude convention", Near(o.lat, o.lat2, 1) /\ (Abs(o.lat) < 89900 /\ Abs(p[1]) < 89900 => Angle(o.lon, o.lon2) <= 2))
(* places a few centimetres to metres apart: offsets in 1/1000000 degree, distance in mm *)
VNear(v, o) ==
  LET y == (v.dy * 111195) \div 1000
      x == (((v.dx * 111195) \div 1000) * Cos(v.p[1])) \div 10000
  IN Clause("short distances", Near((o.d * o.d) \div 16, (x * x) \div 16 + (y * y) \div 16, o.d + 16))
  \cup Clause("short distances are symmetric", Near(o.d, o.ds, 1))
VRefuse(v, o) == Clause("a missing coordinate or a fraction beyond the end is refused", o.r = Exc)
Verdict(r) == CASE r.k = "pair" -> VPair(r.in, r.out)
                     [] r.k = "go" -> VGo(r.in, r.out)
                     [] r.k = "near" -> VNear(r.in, r.out)
                     [] r.k = "refuse" -> VRefuse(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
