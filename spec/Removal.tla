-------------------------------- MODULE Removal -------------------------------
(* The common core of the IQUAM track check and the spike check: reports that   *)
(* contradict each other, of which the worst is removed until all agree.        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES clash, removed        \* set of pairs <<i, j>>, symmetric; set of reports
CountOf(I, i) == Cardinality({q \in I : q[1] = i})
Nodes(I) == {q[1] : q \in I}
Worst(I) == CHOOSE w \in Nodes(I) : \A v \in Nodes(I) : CountOf(I, w) > CountOf(I, v) \/ (CountOf(I, w) = CountOf(I, v) /\ w <= v)
Without(I, w) == {q \in I : q[1] # w /\ q[2] # w}
RECURSIVE Flagged(_)
Flagged(I) == IF I = {} THEN {} ELSE LET w == Worst(I) IN {w} \cup Flagged(Without(I, w))
RInit(I) == clash = I /\ removed = {}
RemoveWorst == /\ clash # {}
               /\ LET w == Worst(clash) IN clash' = Without(clash, w) /\ removed' = removed \cup {w}

(* -- places on a line, metres ------------------------------------------------ *)
AbsV(x) == IF x < 0 THEN -x ELSE x
Wrap(d) == ((d + 180000) % 360000) - 180000       \* milli-degrees, from x to y
M(k) == LET a == AbsV(k) IN (IF k < 0 THEN -1 ELSE 1) * (a * 111 + (a * 195) \div 1000)
Dist(x, y) == AbsV(M(Wrap(y - x)))
Blur(D, e) == D + e * (D \div 50000 + 2)
(* -- what contradicts what --------------------------------------------------- *)
Pairs(n, W) == {q \in (1..n) \X (1..n) : q[1] # q[2] /\ AbsV(q[1] - q[2]) <= W}
(* excess distance over time plus tolerance against a limit in km/h; tolerances in metres and 1/1000 h; times in minutes *)
TooFast(D, el, lim, dd, dth) == (D - dd) > 0 /\ 3 * (D - dd) > lim * (50 * AbsV(el) + 3 * dth)
(* values in 1/8 K; limits: fixed in 1/8 K, per km and per hour in 1/8 K *)
TooSteep(D, el, dv, fixed, gs, gt) == dv > fixed /\ dv * 1000 > D * gs /\ dv * 60 > AbsV(el) * gt
=============================================================================
