----------------------------- MODULE MC_ClimField ------------------------------
(* Histories of a library; slices of the three kinds of climatology over the   *)
(* days of a year.                                                              *)
EXTENDS ClimField, TLC, Json
CONSTANTS Depth
VARIABLES lib, hist, day
mv == <<lib, hist, day>>
V == {"SST", "AT"}
St == {"mean", "stdev"}
MInit == lib = <<>> /\ hist = <<>> /\ day = <<2004, 1, 1>>
MNext == \/ /\ Len(hist) < Depth /\ day = <<2004, 1, 1>>
            /\ \E v \in V, s \in St, x \in 1..2 : lib' = Put(lib, v, s, x) /\ hist' = Append(hist, <<v, s, x>>)
            /\ UNCHANGED day
         \/ hist = <<>> /\ day[1] = 2004 /\ day' = NextDay(day) /\ UNCHANGED <<lib, hist>>
MSpec == MInit /\ [][MNext]_mv
Emit == Len(hist) = Depth => PrintT("BEH lib " \o ToJson(hist))
LastPut == \A v \in V, s \in St : Get(lib, v, s) =
   LET w == {k \in 1..Len(hist) : hist[k][1] = v /\ hist[k][2] = s}
   IN IF w = {} THEN NoVal ELSE hist[CHOOSE k \in w : \A q \in w : q <= k][3]
(* from one day to the next the daily slice moves on by one or stays (29 Feb), the pentad likewise *)
Slices == [][day' # day /\ day'[1] = 2004 =>
   LET a == Slice(365, day[2], day[3]) b == Slice(365, day'[2], day'[3])
       p == Slice(73, day[2], day[3]) q == Slice(73, day'[2], day'[3])
   IN b - a \in {0, 1} /\ (b = a => day[2] = 2 /\ day[3] = 29) /\ q - p \in {0, 1} /\ q = b \div 5]_mv
SliceRange == day[1] = 2004 => Slice(365, day[2], day[3]) \in 0..364 /\ Slice(73, day[2], day[3]) \in 0..72
=============================================================================
