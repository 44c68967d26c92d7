------------------------------ MODULE T_Voyage -------------------------------
EXTENDS Voyage, TraceBase
VARIABLES i, j
In == Recs[i].in
Obs == Recs[i].out.obs
TInit == VInit(Recs[1].in.axis) /\ i = 1 /\ j = 1
Rep(u) == CHOOSE r \in RangeOf(reps) : r.u = u
Bound(b) == [k \in 1..Len(reps) |-> Rep(b.reps[k])]
Step(o, b) ==
  IF o.op = "add" THEN Add(o.r)
  ELSE IF o.op = "alt" THEN UNCHANGED vvars
  ELSE IF Len(b.reps) = Len(reps) /\ (\A k \in 1..Len(reps) : \E r \in RangeOf(reps) : r.u = b.reps[k])
          /\ Permutation(reps, Bound(b)) /\ InOrder(Bound(b))
       THEN SortTo(Bound(b))
       ELSE Report(i, {"sorting puts the same reports into time order"}) /\ UNCHANGED vvars
(* observed leg: d millidegrees, el minutes, c degrees, s speed in millidegrees per hour *)
LegOK(e, o) ==
  IF e.some = 0 THEN o.d = None /\ o.el = None /\ o.c = None /\ o.s = None
  ELSE /\ Abs(o.d - e.d * 10) <= 1
       /\ o.el = e.el
       /\ (e.c >= 0 => o.c = e.c)
       /\ o.c = o.fc     \* also where the specification does not determine the course: that from this very predecessor
       /\ IF e.el = 0 THEN Abs(o.s - e.d * 10) <= 1
          ELSE Abs(o.s * e.el - e.d * 600) <= Abs(e.el) + (e.d * 6) \div 1000
LegsOK(es, os) == Len(os) = Len(es) /\ \A k \in 1..Len(es) : LegOK(es[k], os[k])
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k].s + Sum(s, k - 1)
Verdict(o, b) ==
     Clause("reports in order", b.reps = [k \in 1..Len(reps') |-> reps'[k].u])
  \cup Clause("each report describes its way from its predecessor, the first none", LegsOK(der', b.legs))
  \cup Clause("mean speed", IF Len(reps') < 2 THEN b.mean = None
         ELSE LET n == Len(reps') - 1
                  tot == Sum(SubSeq(b.legs, 2, n + 1), n)
              IN Abs(b.mean * n - tot) <= 2 * n + 2)
  \cup Clause("speeds as a list", b.speeds = [k \in 1..Len(b.legs) |-> b.legs[k].s])
  \cup (IF o.op = "alt" THEN Clause("alternate values span the neighbours", LegsOK(AltLegs(axis, reps), b.alt)) ELSE {})
TNext ==
  \/ /\ i <= NRecs /\ j <= Len(In.ops)
     /\ Step(In.ops[j], Obs[j])
     /\ Report(i, Verdict(In.ops[j], Obs[j]))
     /\ j' = j + 1 /\ i' = i
  \/ /\ i <= NRecs /\ j > Len(In.ops)
     /\ Finished(i)
     /\ i' = i + 1 /\ j' = 1 /\ reps' = <<>> /\ der' = <<>>
     /\ axis' = (IF i < NRecs THEN Recs[i + 1].in.axis ELSE axis)
TraceSpec == TInit /\ [][TNext]_<<axis, reps, der, i, j>>
=============================================================================
