--------------------------- MODULE MC_RemovalTracks ---------------------------
(* Short tracks on the equator across the dateline, with values, to replay.     *)
EXTENDS Removal, TLC, Json
CONSTANTS Last
VARIABLE track
MInit == track = << [x |-> 179500, t |-> 0, v |-> 80] >> /\ clash = {} /\ removed = {}
MNext == /\ Len(track) < Last
         /\ \E dx \in {-1000, 200, 3000}, dt \in {0, 60, 600}, v \in {80, 72, 97} :
              /\ (dt = 600) => (v = 80 \/ dx = 200)
              /\ track' = Append(track, [x |-> Wrap(track[Len(track)].x + dx), t |-> track[Len(track)].t + dt, v |-> v])
         /\ UNCHANGED <<clash, removed>>
MSpec == MInit /\ [][MNext]_<<track, clash, removed>>
IncompAt(W, e) == {q \in Pairs(Len(track), W) : TooFast(Blur(Dist(track[q[1]].x, track[q[2]].x), e), track[q[1]].t - track[q[2]].t, 60, 1110, 10)}
(* a ship that never goes faster than its limit between any two reports is never flagged *)
Slow == (\A i, j \in 1..Len(track) : Dist(track[i].x, track[j].x) <= 1000 * AbsV(track[i].t - track[j].t)) => IncompAt(5, 0) = {}
Emit == Len(track) = Last => PrintT("BEH track " \o ToJson(track))
=============================================================================
