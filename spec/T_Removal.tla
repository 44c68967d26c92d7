------------------------------- MODULE T_Removal ------------------------------
EXTENDS Removal, Identifiers, TraceBase
VARIABLE i
DD(v, o, a, b, e) == Blur(IF v.line = 1 THEN Dist(v.reps[a].x, v.reps[b].x) ELSE o.d[a][b], e)
El(v, a, b) == IF v.reps[a].t = None \/ v.reps[b].t = None THEN 0 ELSE v.reps[a].t - v.reps[b].t
IsBuoy(v) == v.pt \in {6, 7}
Incomp(v, o, e) ==
  IF v.what = "iquam" THEN
     IF Len(v.reps) = 0 \/ GenericBy(v.id, YearAt(v.yr, v.reps[1].t)) THEN {}
     ELSE {q \in Pairs(Len(v.reps), v.p.w) : TooFast(DD(v, o, q[1], q[2], e), El(v, q[1], q[2]), IF IsBuoy(v) THEN v.p.buoy ELSE v.p.ship, v.p.dd, v.p.dth)}
  ELSE {q \in Pairs(Len(v.reps), v.p.w) : v.reps[q[1]].v # None /\ v.reps[q[2]].v # None /\
          TooSteep(DD(v, o, q[1], q[2], e), El(v, q[1], q[2]), AbsV(v.reps[q[1]].v - v.reps[q[2]].v), IF IsBuoy(v) THEN v.p.bt ELSE v.p.st, v.p.gs, v.p.gt)}
Set(f) == {k \in 1..Len(f) : f[k] = 1}
Verdict(v, o) ==
  LET lo == Incomp(v, o, -1) hi == Incomp(v, o, 1) S == Set(o.f) both == lo \cap hi
      want == Flagged(lo) IN
     Clause("every report has the flag, 0 or 1", Len(o.f) = Len(v.reps) /\ \A k \in 1..Len(o.f) : o.f[k] \in {0, 1})
  \cup Clause("exactly the removed reports are flagged", lo = hi => S = want)
  \cup Clause("unflagged reports agree", \A q \in both : q[1] \in S \/ q[2] \in S)
  \cup Clause("no report that agrees with all is flagged", \A k \in S : \E q \in lo \cup hi : q[1] = k)
  \cup Clause("nothing else changes", o.rest = 1)
TInit == i = 1 /\ clash = {} /\ removed = {}
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i].in, Recs[i].out)) /\ Finished(i) /\ i' = i + 1 /\ UNCHANGED <<clash, removed>>
TraceSpec == TInit /\ [][TNext]_<<i, clash, removed>>
=============================================================================
