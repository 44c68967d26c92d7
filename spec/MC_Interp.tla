------------------------------ MODULE MC_Interp --------------------------------
EXTENDS Interp, Sequences, TLC, Json
CONSTANTS Full
VARIABLE s
Vals == {NoVal, 0, 2, 10}
Quad(S) == {<< <<a, b>>, <<c, d>> >> : a \in S, b \in S, c \in S, d \in S}
MInit == s \in [q : Quad(Vals), u : {0, 1, 4, 8}, v : {0, 3, 8}]
MNext == UNCHANGED s
MSpec == MInit /\ [][MNext]_s
F == Fill(s.q)
W == 8
Present == Corners(s.q) \ {NoVal}
Gone == Present = {}
FillOnlyFromPresent == IF Gone THEN Corners(F) = {NoVal}
   ELSE /\ NoVal \notin Corners(F)
        /\ \A x \in Corners(F) : \E a, b \in Present : a <= x /\ x <= b
KeepPresent == \A a, b \in 1..2 : s.q[a][b] # NoVal => F[a][b] = s.q[a][b]
Between == ~Gone => W * W * MinC(F) <= Num(F, s.u, s.v, W, W) /\ Num(F, s.u, s.v, W, W) <= W * W * MaxC(F)
AtCorners == ~Gone => /\ Num(F, 0, 0, W, W) = W * W * F[1][1] /\ Num(F, W, 0, W, W) = W * W * F[2][1]
                      /\ Num(F, 0, W, W, W) = W * W * F[1][2] /\ Num(F, W, W, W, W) = W * W * F[2][2]
LinearExact == \A a \in {-3, 0, 2}, b \in {-1, 5} :
   Num(<< <<0, b * W>>, <<a * W, a * W + b * W>> >>, s.u, s.v, W, W) = W * W * (a * s.u + b * s.v)
Emit == PrintT("BEH fill " \o ToJson(s))
=============================================================================
