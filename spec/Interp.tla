------------------------------- MODULE Interp ---------------------------------
(* Filling the missing corners of a box, and interpolating inside it.  Corner  *)
(* ab is at column a and row b; values are even so that the mean of two is     *)
(* whole; NoVal is missing.                                                     *)
EXTENDS Integers, FiniteSets
NoVal == -99999
Mean2(a, b) == IF a = NoVal THEN b ELSE IF b = NoVal THEN a ELSE (a + b) \div 2
(* a missing corner: the mean of its two neighbours on the box, else the opposite *)
FillOne(own, n1, n2, opp) == IF own # NoVal THEN own ELSE IF Mean2(n1, n2) # NoVal THEN Mean2(n1, n2) ELSE opp
Fill(q) == [a \in 1..2 |-> [b \in 1..2 |-> FillOne(q[a][b], q[3 - a][b], q[a][3 - b], q[3 - a][3 - b])]]
(* numerator of the interpolated value over w*h, u from the west, v from the south *)
Num(q, u, v, w, h) == q[1][1] * (w - u) * (h - v) + q[2][1] * u * (h - v) + q[1][2] * (w - u) * v + q[2][2] * u * v
Corners(q) == {q[a][b] : a, b \in 1..2}
MinC(q) == CHOOSE x \in Corners(q) : \A y \in Corners(q) : x <= y
MaxC(q) == CHOOSE x \in Corners(q) : \A y \in Corners(q) : x >= y
=============================================================================
