---------------------------- MODULE MC_BuddyPlace ------------------------------
(* The real world: pairs of reports in cells by the poles, the dateline, the   *)
(* equator and the turn of the year, as histories to replay.                   *)
EXTENDS Buddy, TLC, Json
VARIABLE hist
mv == <<cells, hist>>
First == {0, 359} \X {0, 1, 90, 179} \X {0, 72}
Second == {0, 1, 179, 180, 358, 359} \X {0, 1, 89, 90, 178, 179} \X {0, 2, 3, 72, 71}
MInit == BuInit /\ hist = <<>>
MNext == \/ hist = <<>> /\ \E c \in First : Add(c, 8) /\ hist' = <<[c |-> c, an |-> 8]>>
         \/ Len(hist) = 1 /\ \E c \in Second : /\ Round(c[1] - hist[1].c[1], NX) <= 2 \/ c[2] \in {0, 179}
                                               /\ Add(c, 16) /\ hist' = Append(hist, [c |-> c, an |-> 16])
MSpec == MInit /\ [][MNext]_mv
Emit == Len(hist) = 2 => PrintT("BEH buddy " \o ToJson(hist))
(* at the pole row every column is within a span of 2 degrees; 3 rows further only a few are *)
PoleRow == \A c, d \in Occ : c[2] = d[2] /\ c[2] \in {0, 179} /\ c # d /\ c[3] = d[3] => d \in Neighbours(cells, c, <<2, 0, 0>>, Widen)
Equator == \A c, d \in Occ : c[2] = 90 /\ d \in Neighbours(cells, c, <<1, 1, 2>>, Widen) => Round(c[1] - d[1], NX) <= 1
=============================================================================
