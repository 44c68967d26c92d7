------------------------------- MODULE MC_Buddy --------------------------------
(* A small round world with a widening towards its poles: all histories of     *)
(* reports.                                                                    *)
EXTENDS Buddy, TLC, Json
CONSTANTS Depth, Ans
VARIABLE hist
mv == <<cells, hist>>
World == (0..(NX - 1)) \X (0..(NY - 1)) \X (0..(NP - 1))
WideM(xs, y) == IF y \in {0, NY - 1} THEN NX * xs ELSE xs
Rads == {<<1, 1, 1>>, <<1, 0, 0>>, <<2, 1, 2>>}
MInit == BuInit /\ hist = <<>>
MNext == /\ Len(hist) < Depth
         /\ \E c \in World, a \in Ans : (hist = <<>> => c[1] = 0) /\ Add(c, a) /\ hist' = Append(hist, [c |-> c, an |-> a])
MSpec == MInit /\ [][MNext]_mv
NB(c, r) == Neighbours(cells, c, r, WideM)
NotSelf == \A c \in Occ, r \in Rads : c \notin NB(c, r)
SymmetricInRow == \A c, d \in Occ, r \in Rads : c[2] = d[2] => (d \in NB(c, r) <=> c \in NB(d, r))
NoPoleJump == \A c, d \in Occ : (c[2] = 0 /\ d[2] = NY - 1) => d \notin NB(c, <<1, 1, 1>>)
Wraps == \A c, d \in Occ : c[2] = d[2] /\ c[3] = d[3] /\ c[1] = 0 /\ d[1] = NX - 1 => d \in NB(c, <<1, 0, 0>>)
Larger == \A c \in Occ : NB(c, <<1, 0, 0>>) \subseteq NB(c, <<1, 1, 1>>) /\ NB(c, <<1, 1, 1>>) \subseteq NB(c, <<2, 1, 2>>)
Totals == CountIn(cells, Occ) = Len(hist)
AsList == cells = GridOf(hist)
OrderFree == \A k \in 1..Len(hist) : cells = GridOf(SubSeq(hist, k + 1, Len(hist)) \o SubSeq(hist, 1, k))
MeanInRange == \A c \in Occ : \A r \in Rads : NB(c, r) # {} =>
   LET N == Cardinality(NB(c, r)) IN LC * N * 0 <= SumMeans(cells, NB(c, r)) /\ SumMeans(cells, NB(c, r)) <= LC * N * 3
ShellFirst == \A c \in Occ : LET k == Shell(cells, c, << <<1, 0, 0>>, <<1, 1, 1>>, <<2, 1, 2>> >>, WideM) IN
   k > 1 => NB(c, <<1, 0, 0>>) = {}
MultMonotone == \A n \in 1..12 : Multiplier(n, <<0, 3, 5>>, <<8, 7, 6>>) \in {8, 7, 6}
                /\ Multiplier(n + 1, <<0, 3, 5>>, <<8, 7, 6>>) <= Multiplier(n, <<0, 3, 5>>, <<8, 7, 6>>)
Emit == Len(hist) = Depth => PrintT("BEH buddy " \o ToJson(hist))
=============================================================================
