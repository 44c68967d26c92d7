------------------------------ MODULE MC_Tracking ------------------------------
EXTENDS Tracking, TLC
CONSTANT N
Good == [isbuoy |-> 1, date |-> 0, time |-> 0, pos |-> 0, blklst |-> 0, clim |-> 0, nonorm |-> 0, freez |-> 0, noval |-> 0, rep |-> 0, hardlimit |-> 0, bbud |-> 0]
Kinds == {Good} \cup {[Good EXCEPT ![n] = 1 - Good[n]] : n \in DOMAIN Good} \cup {[Good EXCEPT !.bbud = b] : b \in {3, 4, 9}} \cup {[Good EXCEPT !.rep = 9]}
Init == \E s \in [1..N -> Kinds] : TrInit(s)
Next == Check
Spec == Init /\ [][Next]_tvars
Failed(k, c) == \E n \in Sets(c) : d[k][n] = 1
(* a report that failed, or was not looked at by, a check is not looked at by a later one that builds on it *)
Order == \A k \in DOMAIN reps : /\ (k \in seen["bias"] => k \in seen["tail"] /\ ~Failed(k, "tail"))
                                /\ (k \in seen["tail"] => k \in seen["aground"] /\ k \in seen["speed"] /\ ~Failed(k, "aground") /\ ~Failed(k, "speed"))
(* flags tell which checks a report was given to *)
Told == \A k \in DOMAIN reps : \A j \in 1..4 : \A n \in Sets(Stages[j]) : (d[k][n] # 9) <=> (k \in seen[Stages[j]])
Nowhere == \A k \in DOMAIN reps : ~Place(reps[k]) => d[k] = Unset
=============================================================================
