------------------------------ MODULE MC_Removal ------------------------------
(* Every symmetric relation on N reports within a window: the laws of removal.  *)
EXTENDS Removal
CONSTANTS N, W
VARIABLE start
UPairs == {q \in (1..N) \X (1..N) : q[1] < q[2] /\ q[2] - q[1] <= W}
MInit == \E U \in SUBSET UPairs : LET I == U \cup {<<q[2], q[1]>> : q \in U} IN RInit(I) /\ start = I
MNext == RemoveWorst /\ UNCHANGED start
MSpec == MInit /\ [][MNext]_<<clash, removed, start>> /\ WF_<<clash, removed, start>>(MNext)
Symmetric == \A q \in clash : <<q[2], q[1]>> \in clash
(* all that remain after the end agree with each other *)
AllAgree == clash = {} => \A q \in start : q[1] \in removed \/ q[2] \in removed
(* the end is what the recursive form says, from wherever it is computed *)
SameEnd == removed \cup Flagged(clash) = Flagged(start)
(* none is removed without cause, and the first removed contradicts the most *)
WithCause == removed \subseteq Nodes(start)
(* a report that contradicts all others, which agree among themselves, goes alone *)
OneBad == \A w \in 1..N : (\A q \in start : w \in {q[1], q[2]}) /\ CountOf(start, w) > 1 => Flagged(start) = {w}
Bounded == Cardinality(removed) <= N - 1
Ends == <>(clash = {})
=============================================================================
