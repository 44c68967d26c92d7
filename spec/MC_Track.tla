------------------------------- MODULE MC_Track -------------------------------
(* Short tracks on the equator over the dateline, with reported speeds and      *)
(* headings: laws of the track check, and tracks to replay.                     *)
EXTENDS Track, TLC, Json
CONSTANTS Last, Steps
P == [dir |-> 60, spd |-> 10, abs |-> 40, mid |-> 150]
Vs == {No, 13, 28}
MInit == /\ clash = {} /\ removed = {} /\ \E v \in {13, No} : track = << [x |-> 177500, t |-> 0, vs |-> v, ds |-> IF v = No THEN No ELSE 90] >>
MNext == /\ Len(track) < Last
         /\ \E dx \in Steps \cup {-4000}, dt \in {360}, v \in Vs, d \in {90, 270} :
              /\ (v = No) => d = 90
              /\ Sail([x |-> Wrap(track[Len(track)].x + dx), t |-> track[Len(track)].t + dt, vs |-> v, ds |-> IF v = No THEN No ELSE d])
         /\ UNCHANGED <<clash, removed>>
MSpec == MInit /\ [][MNext]_<<track, clash, removed>>
C == LineComps(track)
F == Flags(C, P, 0)
(* the ends are never flagged *)
Ends == 1 \notin F /\ Len(track) \notin F
(* a report on the way between its neighbours is never flagged, nor one of a slow ship *)
OnTheWay == \A k \in F : C[k].mid > 150 * NM
Slow == (\A k \in 2..Len(track) : C[k].sp <= 15 * NM) => F = {}
(* speed and alternate speed are at odds with each other only by the triangle inequality *)
Triangle == \A k \in 2..(Len(track) - 1) : C[k].alt <= (C[k].sp + C[k + 1].sp) \div 2 + 2
Emit == Len(track) = Last => PrintT("BEH sail " \o ToJson(track))
=============================================================================
