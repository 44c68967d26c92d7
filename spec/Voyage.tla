------------------------------- MODULE Voyage --------------------------------
(* A voyage: an ordered list of reports of one platform, with the values that *)
(* are derived from neighbouring reports when reports are added or sorted.     *)
(* Positions lie on one great circle: the equator (axis "E", x = longitude)    *)
(* or a meridian (axis "M", x = latitude), in hundredths of a degree; times    *)
(* are minutes, or NoTime.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
NoTime == -99999
VARIABLES axis, reps, der
vvars == <<axis, reps, der>>

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Arc(ax, x, y) == IF ax = "E" THEN LET d == Abs(x - y) % 36000 IN Min2(d, 36000 - d) ELSE Abs(x - y)
Course(ax, x, y) ==      \* from x to y; -1: not determined
  IF ax = "E" THEN LET d == (y - x) % 36000 IN
                   IF d = 0 \/ d = 18000 THEN -1 ELSE IF d < 18000 THEN 90 ELSE 270
  ELSE IF x = y THEN -1 ELSE IF y > x THEN 0 ELSE 180
(* what report b carries about its predecessor a *)
Leg(ax, a, b) ==
  LET el == IF a.t = NoTime \/ b.t = NoTime THEN 0 ELSE b.t - a.t
  IN [some |-> 1, d |-> Arc(ax, a.x, b.x), el |-> el, c |-> Course(ax, a.x, b.x)]
NoLeg == [some |-> 0, d |-> 0, el |-> 0, c |-> -1]
Legs(ax, s) == [k \in 1..Len(s) |-> IF k = 1 THEN NoLeg ELSE Leg(ax, s[k - 1], s[k])]
AltLegs(ax, s) == [k \in 1..Len(s) |-> IF k = 1 \/ k = Len(s) THEN NoLeg ELSE Leg(ax, s[k - 1], s[k + 1])]

RangeOf(s) == {s[k] : k \in 1..Len(s)}
Permutation(s, z) == Len(s) = Len(z) /\ RangeOf(s) = RangeOf(z)
InOrder(s) == \A a, b \in 1..Len(s) : a < b /\ s[a].t # NoTime /\ s[b].t # NoTime => s[a].t <= s[b].t

VInit(ax) == axis = ax /\ reps = <<>> /\ der = <<>>
Add(r) == /\ reps' = Append(reps, r)
          /\ der' = Append(der, IF reps = <<>> THEN NoLeg ELSE Leg(axis, reps[Len(reps)], r))
          /\ UNCHANGED axis
(* sorting recomputes everything, including that the first report carries none *)
SortTo(s) == /\ Permutation(reps, s) /\ InOrder(s)
             /\ reps' = s
             /\ der' = [k \in 1..Len(s) |-> IF k = 1 THEN NoLeg ELSE Leg(axis, s[k - 1], s[k])]
             /\ UNCHANGED axis
DescribesNeighbours == der = Legs(axis, reps)
=============================================================================
