------------------------------ MODULE MC_Voyage ------------------------------
EXTENDS Voyage, TLC, Json
CONSTANTS Depth
VARIABLE hist
Pool == { [u |-> k, x |-> <<0, 100, 1, -17950>>[k], t |-> <<60, 0, 61, 30>>[k]] : k \in 1..4 }
MInit == \E a \in {"E"} : VInit(a) /\ hist = <<>>
SortPick(s) == CHOOSE z \in [1..Len(s) -> RangeOf(s)] : Permutation(s, z) /\ InOrder(s)
MNext == /\ Len(hist) < Depth
         /\ \/ \E r \in Pool : /\ \A k \in 1..Len(reps) : reps[k].u # r.u
                               /\ Add(r) /\ hist' = Append(hist, [op |-> "add", r |-> r])
            \/ /\ reps # <<>> /\ hist' = Append(hist, [op |-> "sort"])
               /\ \E s \in {z \in [1..Len(reps) -> RangeOf(reps)] : Permutation(reps, z) /\ InOrder(z)} : SortTo(s)
MSpec == MInit /\ [][MNext]_<<axis, reps, der, hist>>
Emit == Len(hist) = Depth => PrintT("BEH voy " \o ToJson(hist))
=============================================================================
