------------------------------- MODULE T_Flags -------------------------------
EXTENDS Flags, TraceBase
VARIABLES i, j
In == Recs[i].in
Obs == Recs[i].out.obs
Uids(k) == 1..Recs[k].in.nrep
TInit == i = 1 /\ j = 1 /\ FInit(Uids(1))
Verdict(b) ==
     Clause("a bad value or type is refused, a good one accepted", b.refused = refused')
  \cup Clause("flag value read", b.vals = [u \in 1..In.nrep |-> [m \in 1..Len(In.watch) |->
                LET k == In.watch[m] IN IF k \in DOMAIN store'[u] THEN store'[u][k] ELSE Unset]])
  \cup Clause("filter result", b.filt = [u \in 1..In.nrep |-> [m \in 1..Len(In.filters) |->
                IF \A c \in 1..Len(In.filters[m]) : LET d == In.filters[m][c]
                                                        k == <<d.t, d.n>>
                     IN (IF k \in DOMAIN store'[u] THEN store'[u][k] ELSE Unset) = d.v
                THEN 0 ELSE 1]])
TNext ==
  \/ /\ i <= NRecs /\ j <= Len(In.ops)
     /\ LET o == In.ops[j] IN
          Write(IF o.via = "deck" THEN Uids(i) ELSE {o.u}, o.t, o.n, o.v)
     /\ Report(i, Verdict(Obs[j]))
     /\ j' = j + 1 /\ i' = i
  \/ /\ i <= NRecs /\ j > Len(In.ops)
     /\ Finished(i)
     /\ i' = i + 1 /\ j' = 1 /\ refused' = 0
     /\ store' = (IF i < NRecs THEN [u \in Uids(i + 1) |-> <<>>] ELSE store)
TraceSpec == TInit /\ [][TNext]_<<store, refused, i, j>>
=============================================================================
