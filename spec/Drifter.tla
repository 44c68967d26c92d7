------------------------------- MODULE Drifter -------------------------------
(* The track checks of a drifting buoy: aground, and picked up by a ship.       *)
(* A track is a sequence of [t, y, x]: time in 1/32 day, latitude and longitude *)
(* in 1/100 degree; times do not decrease.                                      *)
EXTENDS Trig
AbsD(v) == IF v < 0 THEN -v ELSE v
Turn36(d) == ((d + 18000) % 36000) - 18000
(* longitudes without a break: each the nearest one to its predecessor *)
RECURSIVE Unbroken(_, _)
Unbroken(tr, k) == IF k = 1 THEN <<tr[1].x>>
                   ELSE LET u == Unbroken(tr, k - 1) IN Append(u, u[k - 1] + Turn36(tr[k].x - u[k - 1]))
(* the middle one of an odd number of values *)
Median(s) == LET h == Len(s) \div 2
                 k == CHOOSE k \in 1..Len(s) : /\ Len(SelectSeq(s, LAMBDA z : z < s[k])) <= h
                                               /\ Len(SelectSeq(s, LAMBDA z : z > s[k])) <= h
             IN s[k]
Smooth(tr, w) ==     \* w odd, fewer than the reports
  LET u == Unbroken(tr, Len(tr)) IN
  [k \in 1..(Len(tr) - w + 1) |->
     [t |-> tr[k + w \div 2].t,
      y |-> Median([q \in 1..w |-> tr[k + q - 1].y]),
      x |-> Median([q \in 1..w |-> u[k + q - 1]])]]
(* as near as two neighbouring corners of the position lattice on the equator; e: blur *)
Still(a, b, e) ==
  LET dy == AbsD(a.y - b.y)
      dx == AbsD(a.x - b.x)
      c == Cos(5 * (a.y + b.y))
  IN dy <= 200 /\ dx <= 200 /\ dy * dy * 10000 + dx * dx * ((c * c) \div 10000) <= 20000 + 30 * e
(* ---------------------------- aground ------------------------------------- *)
(* the position compared with position k (0: none): old, the last within maxw, if at least minw later; new, the last of all *)
LastWithin(s, k, maxw) == CHOOSE j \in 1..Len(s) : s[j].t <= s[k].t + maxw /\ \A i \in (j + 1)..Len(s) : s[i].t > s[k].t + maxw
Target(s, k, p) == LET j == IF p.new = 1 THEN Len(s) ELSE LastWithin(s, k, p.maxw)
                   IN IF s[j].t - s[k].t >= p.minw THEN j ELSE 0
Evaluable(s, p) == {k \in 1..Len(s) : Target(s, k, p) # 0}
StillAt(s, k, p, e) == Still(s[k], s[Target(s, k, p)], e)
(* by definition: aground from the first position of the last unbroken run of still ones, if the run reaches the last one *)
Max(S) == CHOOSE m \in S : \A z \in S : z <= m
Min(S) == CHOOSE m \in S : \A z \in S : z >= m
AgroundFrom(s, p, e) ==
  LET ev == Evaluable(s, p) IN
  IF ev = {} THEN 0
  ELSE LET moving == {k \in ev : ~StillAt(s, k, p, e)} IN
       IF moving = {} THEN Min(ev)
       ELSE LET after == {k \in ev : k > Max(moving)} IN IF after = {} THEN 0 ELSE Min(after)
(* the reports which are flagged *)
AgroundFlags(tr, p, e) ==
  IF Len(tr) <= p.sw THEN {}
  ELSE LET k == AgroundFrom(Smooth(tr, p.sw), p, e) IN
       IF k = 0 THEN {} ELSE (IF k = 1 THEN 1 ELSE k + p.sw \div 2)..Len(tr)
(* ---------------------------- picked up ----------------------------------- *)
(* Fast(i, j): faster than the limit from i to j; aside: reports set aside *)
Stretch(tr, i, p, aside) ==        \* last report of the stretch that starts at i, 0: none
  IF p.new = 1 THEN
    LET js == {j \in 1..Len(tr) : j \notin aside /\ tr[j].t >= tr[i].t + p.minw} IN
    IF i \in aside \/ js = {} THEN 0 ELSE Min(js)
  ELSE LET j == LastWithin(tr, i, p.maxw) IN IF tr[j].t - tr[i].t >= p.minw THEN j ELSE 0
SpeedFlags(tr, p, aside, Fast(_, _)) ==
  IF Len(tr) <= 1 THEN {}
  ELSE UNION {IF Stretch(tr, i, p, aside) # 0 /\ Fast(i, Stretch(tr, i, p, aside)) THEN i..Stretch(tr, i, p, aside) ELSE {} : i \in 1..Len(tr)}
=============================================================================
