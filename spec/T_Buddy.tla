------------------------------- MODULE T_Buddy ---------------------------------
EXTENDS BuddyParams, TraceBase
VARIABLE i
Close(a, b, tol) == AbsI(a - b) <= tol
(* mean in 1/8 over LC*cnt, observed in 1/800 *)
MeanClose(obs, num, cnt) == Close(obs, (100 * (num \div cnt)) \div LC, 1)
Pars(v) == IF v.old = 1 THEN [lims |-> OldParams.lims, thr |-> OldParams.thr, mult |-> OldParams.mult, n |-> v.p.n] ELSE v.p
(* observed neighbours: list of <<cell mean in 1/800, number>> as a multiset of values *)
Pairs(g, S) == {<<d, (100 * CellMean(g, d)) \div LC, g[d].n>> : d \in S}
MatchNb(g, S, obs) ==
   /\ Len(obs) = Cardinality(S)
   /\ \A d \in S : LET m == (100 * CellMean(g, d)) \div LC IN
        Cardinality({k \in 1..Len(obs) : Close(obs[k][1], m, 1) /\ obs[k][2] = g[d].n})
        = Cardinality({e \in S : Close((100 * CellMean(g, e)) \div LC, m, 1) /\ g[e].n = g[d].n})
Bayes2(g, c, p) ==   \* square of the combined standard deviation times 1000 (deviations in halves, sm in halves, ns whole)
   LET S == Neighbours(g, c, p.blim, Widen)
       N == Cardinality(S)
       s1 == SDAt(1, p.n, c) s2 == SDAt(2, p.n, c) s3 == SDAt(3, p.n, c)
       sm2 == p.sm * p.sm
       each == sm2 + p.ns * s2 * s2       \* per observation, in quarters
   IN (1000 * (sm2 + s1 * s1 + p.ns * s2 * s2)) \div 4
      + (((((SumInv(g, S) * each) * 25) \div LC) * 10) \div (N * N))
      + (250 * s3 * s3) \div N
GridV(v, o) ==
  LET g == GridOf(Placed(v.reps))
      p == Pars(v) IN
     Clause("each report is in the cell of its position and pentad", \A k \in 1..Len(o.cell) : o.cell[k] = CellOf(v.reps[k]))
  \cup Clause("occupied cells", o.nocc = Cardinality(DOMAIN g))
  \cup Clause("number and mean anomaly of a cell",
         \A k \in 1..Len(o.cell) : LET c == CellOf(v.reps[k]) IN o.n[k] = g[c].n /\ MeanClose(o.av[k], CellMean(g, c), 1))
  \cup Clause("neighbours of a cell", \A k \in 1..Len(o.nb) : \A q \in 1..Len(v.rads) :
         MatchNb(g, Neighbours(g, CellOf(v.reps[k]), v.rads[q], Widen), o.nb[k][q]))
  \cup Clause("buddy mean", \A k \in 1..Len(o.bm) : LET w == Verdicts(g, CellOf(v.reps[k]), p) IN MeanClose(o.bm[k], w.num, w.cnt))
  \cup Clause("buddy limit", \A k \in 1..Len(o.bl) : LET w == Verdicts(g, CellOf(v.reps[k]), p) IN
         o.bl[k] = IF w.none THEN 2000 ELSE w.lim)
  \cup Clause("Bayesian neighbour mean", \A k \in 1..Len(o.ym) :
         LET c == CellOf(v.reps[k]) S == Neighbours(g, c, v.p.blim, Widen)
         IN IF S = {} THEN o.ym[k] = 0 ELSE MeanClose(o.ym[k], SumMeans(g, S), Cardinality(S)))
  \cup Clause("Bayesian neighbour uncertainty", \A k \in 1..Len(o.y2) :
         LET c == CellOf(v.reps[k]) S == Neighbours(g, c, v.p.blim, Widen)
         IN IF S = {} THEN o.y2[k] = 250000000 ELSE Close(o.y2[k], Bayes2(g, c, v.p), 12))
Mult(v, o) == Clause("multiplier of the highest limit exceeded", o.m = Multiplier(v.n, v.thr, v.mult))
Verdict(r) == CASE r.k = "grid" -> GridV(r.in, r.out)
                [] r.k = "mult" -> Mult(r.in, r.out)
TInit == i = 1 /\ cells = <<>>
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1 /\ UNCHANGED cells
TraceSpec == TInit /\ [][TNext]_<<i, cells>>
=============================================================================
