---------------------------- MODULE MC_Blacklist -----------------------------
(* Every year-region border of the deck tables, in both longitude forms.       *)
EXTENDS Blacklist, TLC, Json
CONSTANTS Step
VARIABLE v
Edges(a, b) == {100 * a - 1, 100 * a, 50 * (a + b), 100 * b, 100 * b + 1}
Mat == << <<-80, 40, 0, 55>>, <<-10, 35, 30, 45>>, <<15, -10, 45, 40>>, <<15, -10, 95, 15>>, <<95, -10, 105, 5>> >>
Base == [id |-> "AA", dck |-> 732, yr |-> 1960, mo |-> 6, lat |-> 0, lon |-> 0, pt |-> 5]
MInit == v \in UNION {{[Base EXCEPT !.yr = y, !.lat = a, !.lon = o] :
                       y \in {z \in 1957..1975 : (z + k) % Step = 0}, a \in Edges(Region[k][2], Region[k][4]), o \in Edges(Region[k][1], Region[k][3])} : k \in 1..17}
       \cup UNION {{[Base EXCEPT !.dck = 193, !.yr = y, !.lat = a, !.lon = o] :
                       y \in {1879, 1880, 1892, 1893}, a \in Edges(Mat[k][2], Mat[k][4]), o \in Edges(Mat[k][1], Mat[k][3])} : k \in 1..5}
MNext == v.lon < 0 /\ v.lon > -18000 /\ v' = [v EXCEPT !.lon = v.lon + 36000]
MSpec == MInit /\ [][MNext]_v
(* the longitude convention does not matter *)
ConventionFree == [][Blacklisted(v) = Blacklisted(v') /\ MatExcluded(v) = MatExcluded(v')]_v
Emit == PrintT("BEH bl " \o ToJson(v))
=============================================================================
