------------------------------ MODULE MC_Flags -------------------------------
EXTENDS Flags, TLC, Json
CONSTANTS Depth
VARIABLE hist
U == 1..2
Tys == {"SST", "POS", "ICE"}
Vals == {0, 1, 10}
MInit == FInit(U) /\ hist = <<>>
MNext == /\ Len(hist) < Depth
         /\ \E o \in ([via : {"rep", "voy"}, u : U, t : Tys, n : {"x"}, v : Vals]
                      \cup [via : {"deck"}, u : {0}, t : Tys, n : {"x", "y"}, v : {1, -1}]) :
              /\ hist' = Append(hist, o)
              /\ Write(IF o.via = "deck" THEN U ELSE {o.u}, o.t, o.n, o.v)
MSpec == MInit /\ [][MNext]_<<store, refused, hist>>
Emit == Len(hist) = Depth => PrintT("BEH flags " \o ToJson(hist))
RefusedChangesNothing == [][refused' = 1 => store' = store]_<<store, refused, hist>>
OthersUntouched == [][hist' # hist /\ hist'[Len(hist')].via # "deck" =>
                       \A u \in U : u # hist'[Len(hist')].u => store'[u] = store[u]]_<<store, refused, hist>>
LastWriteWins == [][(hist' # hist /\ refused' = 0) =>
     LET o == hist'[Len(hist')] IN \A u \in U : (o.via = "deck" \/ u = o.u) => store'[u][<<o.t, o.n>>] = o.v]_<<store, refused, hist>>
=============================================================================
