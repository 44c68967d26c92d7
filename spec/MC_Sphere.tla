------------------------------ MODULE MC_Sphere ------------------------------
(* A traveller who keeps straight on along a meridian, over the poles, or      *)
(* along the equator, and the laws of the distances that he measures.          *)
EXTENDS Sphere, TLC, Json, FiniteSets
CONSTANTS Step, Lons
MCLons == {-180000, -90000, 0, 30000, 90000, 150000, 180000}
MCMoreLons == {-180000, -165000, -150000, -90000, -60000, -30000, 0, 15000, 30000, 90000, 120000, 150000, 180000}
VARIABLES p, q, dir, gone
vars == <<p, q, dir, gone>>
Lats == {Step * k : k \in (0 - Quarter \div Step)..(Quarter \div Step)}
Places == Lats \X Lons
Init == /\ p \in Places /\ dir \in {North, South, East, West} /\ (dir \in {East, West} => p[1] = 0)
        /\ q = p /\ gone = 0
Next == /\ gone < Turn /\ gone' = gone + Step
        /\ q' = Along(p, dir, gone') /\ UNCHANGED <<p, dir>>
CSpec == Init /\ [][Next]_vars
Legal == q[1] \in -Quarter..Quarter /\ q[2] \in -Half..Half
Shorter == IF gone > Half THEN Turn - gone ELSE gone
Measured == /\ Exact(p, q)
            /\ Arc(p, q) = Shorter
            /\ Arc(q, p) = Shorter
RoundTheWorld == gone = Turn => SamePlace(p, q)
ZeroOnlyAtHome == (Arc(p, q) = 0) = SamePlace(p, q)
FarthestAtAntipodes == (Arc(p, q) = Half) = Antipodes(p, q)
(* the direction of the place lies ahead for half the way, then behind *)
Back(d) == (d + Half) % Turn
Ahead == Pole(p) \/ gone \in {0, Turn} \/ Half \in {gone} \/
         Directions(p, q) = {IF gone < Half THEN dir ELSE Back(dir)}
(* each step is one step long *)
EachStep == [][Arc(q, q') = Step]_vars
(* no way round through a third place is shorter *)
Triangle == \A r \in Places : (Exact(p, r) /\ Exact(r, q)) => Arc(p, q) <= Arc(p, r) + Arc(r, q)
(* the general law agrees with the exact one *)
General == /\ Abs(Up(p, q) - Cos(Arc(p, q))) <= 4
           /\ Abs(ToNorth(p, q)) <= 10002 /\ Abs(ToEast(p, q)) <= 10002
           /\ (dir \in {North, South} /\ ~Pole(p)) => Abs(ToNorth(p, q) - (IF dir = North THEN 1 ELSE -1) * Sin(gone)) <= 5
           /\ dir \in {East, West} => Abs(ToEast(p, q) - (IF dir = East THEN 1 ELSE -1) * Sin(gone)) <= 5
(* replayed: every leg, and every pair of places *)
Emit == /\ (gone > 0 /\ gone <= Half) => PrintT("BEH leg " \o ToJson([p |-> p, dir |-> dir, a |-> gone, q |-> q]))
        /\ gone = 0 => \A r \in Places : PrintT("BEH pair " \o ToJson([p |-> p, q |-> r]))
=============================================================================
