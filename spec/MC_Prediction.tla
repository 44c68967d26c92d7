----------------------------- MODULE MC_Prediction -----------------------------
(* A ship that keeps its course and speed, but reports only now and then: every *)
(* prediction made on the way is where it later is.                             *)
EXTENDS Prediction, TLC, Json
CONSTANTS Starts, Speeds, Gaps, Legs
MCStarts == {<<0, 0>>, <<0, 179000>>, <<80000, 30000>>, <<-85000, -150000>>, <<10000, -180000>>}
MCSpeeds == {1000, 6000}        \* 1/1000 degree per hour
MCGaps == {1, 3, 6}               \* hours between reports
VARIABLES start, dir, speed
vars == <<track, start, dir, speed>>
Where(h) == Along(start, dir, speed * h)
Init == /\ start \in Starts /\ dir \in {North, South, East, West} /\ (dir \in {East, West} => start[1] = 0)
        /\ speed \in Speeds \cup {0}
        /\ track = << <<start, 0>> >>
Hour == When(LastOf(track)) \div 60
Next == /\ Len(track) <= Legs /\ \E g \in Gaps : Sail(Where(Hour + g), (Hour + g) * 60)
        /\ UNCHANGED <<start, dir, speed>>
PSpec == Init /\ [][Next]_vars
ComesTrue == \A g \in Gaps : (Len(track) > 1 /\ Determined(track)) => SamePlace(Predicted(track, 60 * g), Where(Hour + g))
NowIsHere == (Len(track) = 1 \/ Determined(track)) => SamePlace(Predicted(track, 0), Place(LastOf(track)))
NeverLate == [][(Len(track) > 1 /\ Determined(track)) =>
                SamePlace(Predicted(track, When(LastOf(track')) - When(LastOf(track))), Place(LastOf(track')))]_vars
Emit == Len(track) > 1 => PrintT("BEH track " \o ToJson(track))
=============================================================================
