------------------------------ MODULE T_Drifter ------------------------------
EXTENDS Removal, Identifiers, Drifter, TraceBase
VARIABLE i
N(v) == Len(v.reps)
Tr(v) == [k \in 1..N(v) |-> [t |-> v.reps[k].t, y |-> v.reps[k].y, x |-> v.reps[k].x]]
Flagged1(f) == {k \in 1..Len(f) : f[k] = 1}
(* metres between two reports: on the equator or a meridian by the specification, else as the code says (o.d) *)
Metres(v, o, a, b, e) ==
  IF v.reps[a].x = v.reps[b].x /\ v.reps[a].y = v.reps[b].y THEN 0 ELSE
  Blur(IF v.line = "E" THEN Dist(10 * v.reps[a].x, 10 * v.reps[b].x)
       ELSE IF v.line = "M" THEN AbsV(M(10 * (v.reps[b].y - v.reps[a].y)))
       ELSE o.d[a][b], e)
(* limit in 1/10 m/s; times in 1/32 day = 2700 s *)
Faster(v, o, a, b, e) == LET el == v.reps[b].t - v.reps[a].t IN
                         el > 0 /\ Metres(v, o, a, b, e) * 10 > v.p.lim * el * 2700
IqClash(v, o, e) == IF GenericBy(v.id, v.yr) THEN {}
                    ELSE {q \in Pairs(N(v), v.iq.w) : TooFast(Metres(v, o, q[1], q[2], e), 45 * (v.reps[q[1]].t - v.reps[q[2]].t), v.iq.ship, v.iq.dd, v.iq.dth)}
Wanted(v, o, e) ==
  IF v.what = "agr" THEN AgroundFlags(Tr(v), v.p, e)
  ELSE SpeedFlags(Tr(v), v.p, IF v.p.new = 1 THEN Flagged(IqClash(v, o, 0)) ELSE {}, LAMBDA a, b : Faster(v, o, a, b, e))
Decided(v, o) == v.what = "agr" \/ v.p.new = 0 \/ IqClash(v, o, -1) = IqClash(v, o, 1)
VDrift(v, o) ==
  IF v.refuse = 1 THEN Clause("missing positions, times out of order or a bad window are refused", o.exc = 1)
  ELSE IF v.pt # 7 THEN Clause("only drifters are checked", o.exc = 0 /\ o.f = v.old)
  ELSE LET lo == Wanted(v, o, -1)
           hi == Wanted(v, o, 1)
           S == Flagged1(o.f)
       IN Clause("the check runs", o.exc = 0)
       \cup Clause("every report has the flag, 0 or 1", Len(o.f) = N(v) /\ \A k \in 1..Len(o.f) : o.f[k] \in {0, 1})
       \cup Clause("exactly the documented reports are flagged", (lo = hi /\ Decided(v, o)) => S = lo)
  \cup Clause("nothing else changes", o.rest = 1)
Verdict(r) == VDrift(r.in, r.out)
TInit == i = 1 /\ clash = {} /\ removed = {}
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1 /\ UNCHANGED <<clash, removed>>
TraceSpec == TInit /\ [][TNext]_<<i, clash, removed>>
=============================================================================
