------------------------------ MODULE MC_Readers ------------------------------
EXTENDS Readers, TLC, Json
CONSTANTS Depth
VARIABLE hist
Line == [cols |-> 6, bad |-> 0, id |-> 1, yr |-> 2004, mo |-> 2, dy |-> 29, hr |-> 23, mi |-> 45, lat |-> 1250, lon |-> -17950, sst |-> 1525]
Lines == {Line, [Line EXCEPT !.yr = 2003], [Line EXCEPT !.sst = Missing, !.id = 2], [Line EXCEPT !.lat = 99900], [Line EXCEPT !.lon = 99999, !.hr = 0],
          [Line EXCEPT !.cols = 5], [Line EXCEPT !.cols = 7], [Line EXCEPT !.bad = 1, !.dy = 1], [Line EXCEPT !.cols = 0]}
MInit == RInit /\ hist = <<>>
MNext == /\ Len(hist) < Depth
         /\ \E l \in Lines : hist' = Append(hist, l) /\ (IF l.cols = 0 THEN EndOfFile ELSE Read("nrt", l))
MSpec == MInit /\ [][MNext]_<<shown, refused, hist>>
Good == {k \in 1..Len(hist) : Accepts("nrt", hist[k])}
OnlyTheLastAccepted == shown = IF Good = {} THEN Void ELSE FieldsOf("nrt", hist[CHOOSE k \in Good : \A z \in Good : z <= k])
PositionsKeepWithin == shown.lat = Missing \/ (shown.lat <= 20000 /\ shown.lon <= 40000)
Emit == Len(hist) = Depth => PrintT("BEH nrt " \o ToJson(hist))
=============================================================================
