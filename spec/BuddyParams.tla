---------------------------- MODULE BuddyParams -------------------------------
(* The real buddy grid (1 degree, pentads) and the test fields of standard     *)
(* deviations, in halves: masked and negative values count as 1.0, zero counts.*)
EXTENDS Buddy, Calendar
G == INSTANCE Grid
CellOf(r) == <<G!ColM(IF r.lon > 180000 THEN r.lon - 360000 ELSE r.lon, 90000, 1000), G!RowM(r.lat, 90000, 1000), Pentad(r.mo, r.dy) - 1>>
Placed(rs) == [k \in 1..Len(rs) |-> [c |-> CellOf(rs[k]), an |-> rs[k].an]]
SD(k, t, y, x) == IF (t + y * 3 + x + k) % 7 = 0 \/ (t + y + x + k) % 11 = 0 THEN 2
                  ELSE IF (t + y + x + 2 * k) % 13 = 0 THEN 0 ELSE 1 + ((t + y + x + k) % 4)
SDAt(k, n, c) == SD(k, IF n = 1 THEN 0 ELSE c[3], c[2], c[1])
(* mean and limit of a cell: [none, num (over LC * cnt, in 1/8), cnt, lim (in 1/4)] *)
Verdicts(g, c, p) ==
   LET k == Shell(g, c, p.lims, Widen) IN
   IF k = 0 THEN [none |-> TRUE, num |-> 0, cnt |-> 1, lim |-> 2000, exact |-> TRUE]
   ELSE LET S == Neighbours(g, c, p.lims[k], Widen) IN
        [none |-> FALSE, num |-> SumMeans(g, S), cnt |-> Cardinality(S),
         lim |-> Multiplier(CountIn(g, S), p.thr[k], p.mult[k]) * SDAt(0, p.n, c),
         exact |-> Cardinality(S) \in {1, 2, 4, 8} /\ \A d \in S \cup {c} : g[d].n \in {1, 2, 4, 8}]
OldParams == [lims |-> << <<1, 1, 2>>, <<2, 2, 2>>, <<1, 1, 4>>, <<2, 2, 4>> >>,
              thr |-> << <<0, 5, 15, 100>>, <<0>>, <<0, 5, 15, 100>>, <<0>> >>,
              mult |-> << <<8, 7, 6, 5>>, <<8>>, <<8, 7, 6, 5>>, <<8>> >>]
(* distance of an anomaly (1/8) from the mean against the limit: -1 below, 0 at, 1 above *)
Against(an, v) == LET d == AbsI(an * LC * v.cnt - v.num)
                      l == IF v.none THEN 4000 * LC ELSE v.lim * 2 * LC * v.cnt
                  IN IF d < l THEN -1 ELSE IF d = l THEN 0 ELSE 1
(* Bayesian limits: the square of the combined standard deviation *)
RECURSIVE SumInv(_, _)
SumInv(g, S) == IF S = {} THEN 0 ELSE LET d == CHOOSE x \in S : TRUE IN LC \div g[d].n + SumInv(g, S \ {d})
=============================================================================
