------------------------------- MODULE Sphere --------------------------------
(* Great circles.  Places <<lat, lon>> and courses in 1/1000 degree.           *)
(* General laws are in sines of 1/10000; on the meridians and the equator the  *)
(* geometry is exact.                                                          *)
EXTENDS Trig
Abs(x) == IF x < 0 THEN -x ELSE x
Half == 180000
Quarter == 90000
(* longitude in -180 <= lon < 180, course in 0 <= c < 360 *)
Lon(x) == ((x + Half) % Turn) - Half
Course(c) == c % Turn
(* difference of two angles, 0..180 *)
Angle(a, b) == LET d == (a - b) % Turn IN IF d > Half THEN Turn - d ELSE d
Pole(p) == Abs(p[1]) = Quarter
SamePlace(p, q) == /\ p[1] = q[1] /\ (Pole(p) \/ Lon(p[2]) = Lon(q[2]))
Antipodes(p, q) == /\ p[1] = -q[1] /\ (Pole(p) \/ Angle(p[2], q[2]) = Half)

(* ---- the exact part: one meridian circle, or the equator --------------- *)
OnMeridian(p, q) == Pole(p) \/ Pole(q) \/ Angle(p[2], q[2]) \in {0, Half}
OnEquator(p, q) == p[1] = 0 /\ q[1] = 0
Exact(p, q) == OnMeridian(p, q) \/ OnEquator(p, q)
(* the nearer way over a pole if they are on opposite meridians *)
Opposite(p, q) == ~Pole(p) /\ ~Pole(q) /\ Angle(p[2], q[2]) = Half
Arc(p, q) ==
  IF OnMeridian(p, q)
  THEN IF Opposite(p, q) THEN Half - Abs(p[1] + q[1]) ELSE Abs(p[1] - q[1])
  ELSE Angle(p[2], q[2])
(* compass direction in which q lies from p: a set, all of them for antipodes *)
North == 0
South == Half
East == Quarter
West == 3 * Quarter
Directions(p, q) ==
  IF OnMeridian(p, q)
  THEN IF Opposite(p, q) THEN IF p[1] + q[1] > 0 THEN {North} ELSE IF p[1] + q[1] < 0 THEN {South} ELSE {North, South, East, West}
       ELSE IF q[1] > p[1] THEN {North} ELSE {South}
  ELSE IF (q[2] - p[2]) % Turn < Half THEN {East} ELSE {West}
(* along a meridian over the poles: unfold it into an angle that runs once round *)
Along(p, dir, d) ==
  IF dir \in {East, West} THEN <<p[1], Lon(p[2] + (IF dir = East THEN d ELSE -d))>>
  ELSE LET a == ((p[1] + (IF dir = North THEN d ELSE -d) + Half) % Turn) - Half      \* -180..180
       IN IF a > Quarter THEN <<Half - a, Lon(p[2] + Half)>>
          ELSE IF a < -Quarter THEN <<-Half - a, Lon(p[2] + Half)>>
          ELSE <<a, p[2]>>

(* ---- the general part ---------------------------------------------------- *)
(* components of q as seen from p: up (cosine of the distance), north and east *)
Mul(a, b) == (a * b) \div 10000
Up(p, q) == Mul(Sin(p[1]), Sin(q[1])) + Mul(Mul(Cos(p[1]), Cos(q[1])), Cos(q[2] - p[2]))
ToNorth(p, q) == Mul(Cos(p[1]), Sin(q[1])) - Mul(Mul(Sin(p[1]), Cos(q[1])), Cos(q[2] - p[2]))
ToEast(p, q) == Mul(Cos(q[1]), Sin(q[2] - p[2]))
(* metres of an arc in 1/1000 degree, on a globe of radius 6371008.8 metres, to within 2 *)
Metres(a) == a * 111 + (a * 195) \div 1000 + (a * 802) \div 10000000
HalfWay == 20015115
=============================================================================
