--------------------------------- MODULE Track --------------------------------
(* The ship track check.  Distances in metres, speeds in metres per hour, times *)
(* in minutes, speeds and distances of the rules in knots and nautical miles.   *)
(* e = -1, 0, 1 shifts every comparison a little: where the outcome depends on   *)
(* it, rounding decides.                                                        *)
EXTENDS Removal
No == -99999
NM == 1852
Gt(a, b, e) == a # No /\ a > b + e * (AbsV(b) \div 3000 + 4)
Frac(D, a, b) == (D \div b) * a + ((D % b) * a) \div b          \* D * a / b
Sp(D, el) == IF el = 0 THEN D ELSE Frac(D, 60, el)
(* -- what follows from a track on the equator: x in 1/1000 degree, v and s the reported speed (knots) and heading -- *)
Circ == 40030228
Fold(m) == LET a == AbsV(m) % Circ IN IF a <= Circ - a THEN a ELSE Circ - a
El(r, k) == r[k].t - r[k - 1].t
Known(r, k) == r[k].vs # No /\ r[k - 1].vs # No /\ r[k].ds # No /\ r[k - 1].ds # No
Ahead(r, k) == (IF r[k].ds = 90 THEN 1 ELSE -1) * r[k].vs
Reckoned(r, k) == ((Ahead(r, k) + Ahead(r, k - 1)) * NM * El(r, k)) \div 120     \* metres run between k - 1 and k
Off(r, k) == IF k < 2 \/ k > Len(r) THEN No ELSE IF ~Known(r, k) THEN No ELSE Fold(M(Wrap(r[k].x - r[k - 1].x)) - Reckoned(r, k))
LineComps(r) == [k \in 1..Len(r) |->
  [sp |-> IF k = 1 THEN No ELSE Sp(Dist(r[k - 1].x, r[k].x), El(r, k)),
   alt |-> IF k = 1 \/ k = Len(r) THEN No ELSE Sp(Dist(r[k - 1].x, r[k + 1].x), r[k + 1].t - r[k - 1].t),
   crs |-> IF k = 1 THEN No ELSE LET d == Wrap(r[k].x - r[k - 1].x) IN IF d = 0 THEN 0 ELSE IF d > 0 THEN 9000 ELSE 27000,
   el |-> IF k = 1 THEN No ELSE El(r, k),
   vs |-> r[k].vs, ds |-> r[k].ds,
   fwd |-> Off(r, k), rev |-> Off(r, k + 1),
   mid |-> IF k = 1 \/ k = Len(r) THEN No
           ELSE LET t == El(r, k) + El(r, k + 1)
                    D == M(Wrap(r[k + 1].x - r[k - 1].x))
                    part == IF t = 0 THEN 0 ELSE IF D >= 0 THEN Frac(D, El(r, k), t) ELSE -Frac(-D, El(r, k), t)
                IN Fold(M(Wrap(r[k].x - r[k - 1].x)) - part)]]
(* -- the rules -- *)
RECURSIVE BinCount(_, _, _, _)
Bin(s, e) == LET b == (s + e * (s \div 5000 + 2)) \div 5556 IN IF b < 0 THEN 0 ELSE IF b > 11 THEN 11 ELSE b
BinCount(c, k, b, e) == IF k > Len(c) THEN 0 ELSE (IF Bin(c[k].sp, e) = b THEN 1 ELSE 0) + BinCount(c, k + 1, b, e)
ModeBin(c, e) == CHOOSE b \in 0..11 : \A a \in 0..11 : BinCount(c, 2, b, e) > BinCount(c, 2, a, e) \/ (BinCount(c, 2, b, e) = BinCount(c, 2, a, e) /\ b <= a)
(* speed limit in metres per hour from the modal speed: 15 knots, or 1.25 times the mode if that is over 8.5 knots *)
Limit(c, e) == LET b == ModeBin(c, e) IN IF b <= 2 THEN 15 * NM ELSE ((3 * b * 10 + 15) * 125 * NM) \div 1000
Turn(a, b) == LET d == AbsV(a - b) % 36000 IN IF d <= 18000 THEN d ELSE 36000 - d       \* hundredths of a degree
TooFastAt(c, k, lim, e) ==
  \/ Gt(c[k].sp, lim, e) /\ Gt(c[k - 1].alt, lim, e)
  \/ Gt(c[k + 1].sp, lim, e) /\ Gt(c[k + 1].alt, lim, e)
  \/ Gt(c[k].sp, lim, e) /\ Gt(c[k + 1].sp, lim, e)
Astray(c, k, e) == /\ c[k].vs > 0 /\ c[k - 1].vs > 0 /\ c[k].el > 0
                   /\ LET far == ((c[k].vs + c[k - 1].vs) * NM * c[k].el) \div 120 IN Gt(c[k].fwd, far, e) /\ Gt(c[k].rev, far, e)
Turned(c, k, p, e) == /\ c[k].ds # No /\ c[k - 1].ds # No /\ c[k].crs # No
                      /\ (\/ Turn(c[k].ds * 100, c[k].crs) > p.dir * 100 + 3 * e \/ Turn(c[k - 1].ds * 100, c[k].crs) > p.dir * 100 + 3 * e)
Jumped(c, k, p, e) == /\ c[k].vs # No /\ c[k - 1].vs # No /\ c[k].sp # No
                      /\ Gt(AbsV(c[k].vs * NM - c[k].sp), p.spd * NM, e) /\ Gt(AbsV(c[k - 1].vs * NM - c[k].sp), p.spd * NM, e)
Bad(c, k, p, e) == /\ k > 1 /\ k < Len(c)
                   /\ Gt(c[k].mid, p.mid * NM, e)
                   /\ TooFastAt(c, k, Limit(c, e), e)
                   /\ (Astray(c, k, e) \/ Turned(c, k, p, e) \/ Jumped(c, k, p, e) \/ Gt(c[k].sp, p.abs * NM, e))
Flags(c, p, e) == {k \in 1..Len(c) : Bad(c, k, p, e)}
(* -- a voyage that grows -- *)
VARIABLES track
TrInit == track = <<>>
Sail(r) == track' = Append(track, r)
=============================================================================
