----------------------------- MODULE T_Prediction ------------------------------
(* Each record: a track, report by report, and the predictions after each;      *)
(* exact on meridians and the equator, by distances elsewhere (metres).         *)
EXTENDS Prediction, TraceBase
VARIABLES i, j
In == Recs[i].in
Obs == Recs[i].out.obs
TInit == i = 1 /\ j = 1 /\ track = <<>>
Near(a, b, e) == Abs(a - b) <= e
One(s, after, o) ==
  IF after < 0 THEN Clause("the past is not predicted", o.refused = 1)
  ELSE Clause("a prediction is made", o.refused = 0)
  \cup (IF o.refused = 1 THEN {} ELSE
     Clause("the prediction is a place", o.lat \in -Quarter..Quarter /\ o.lon \in -Half..Half)
  \cup (IF Stays(s)
        THEN Clause("a platform whose speed is not known stays", Near(o.lat, Place(LastOf(s))[1], 1) /\ (Abs(o.lat) > 89900 \/ Angle(o.lon, Place(LastOf(s))[2]) <= 2))
        ELSE LET f == Far(s, after) IN
             (IF Determined(s) /\ Abs(Place(Before(s))[1]) < 89900
              THEN LET q == Predicted(s, after) IN
                   Clause("it goes on along its meridian or the equator", Near(o.lat, q[1], 2) /\ (Abs(q[1]) > 89900 \/ Angle(o.lon, q[2]) <= 3))
              ELSE {})
        \cup (LET el == Elapsed(s)
                   ex == (o.leg \div el) * after + ((o.leg % el) * after) \div el        \* metres from the last report
                   tol == 3 + (2 * after) \div el + ex \div 100000
               IN IF o.leg > 100 /\ Abs(Place(Before(s))[1]) <= 89000 /\ o.leg + ex <= 19000000
                  THEN Clause("as far as the speed says", Near(o.far, ex, tol))
                  \cup Clause("straight on", Near(o.whole, o.leg + ex, tol))
                  ELSE {})))
TNext ==
  \/ /\ i <= NRecs /\ j <= Len(In.track)
     /\ Sail(In.track[j][1], In.track[j][2])
     /\ Report(i, UNION {One(track', In.after[k], Obs[j][k]) : k \in 1..Len(In.after)})
     /\ j' = j + 1 /\ i' = i
  \/ /\ i <= NRecs /\ j > Len(In.track)
     /\ Finished(i)
     /\ i' = i + 1 /\ j' = 1 /\ track' = <<>>
TraceSpec == TInit /\ [][TNext]_<<track, i, j>>
=============================================================================
