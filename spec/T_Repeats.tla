------------------------------- MODULE T_Repeats ------------------------------
EXTENDS Repeats, TraceBase
VARIABLE i
Set(f) == {k \in 1..Len(f) : f[k] = 1}
Sat(v) == [k \in 1..Len(v.reps) |-> v.reps[k].at # No /\ v.reps[k].dpt = v.reps[k].at]
Tm(v) == [k \in 1..Len(v.reps) |-> v.reps[k].t]
(* times in minutes, threshold in hours *)
Verdict(v, o) ==
  LET want == CASE v.how = "rep" -> Repeated(v.vals, v.p)
                [] v.how = "round" -> Rounded(v.vals, v.p)
                [] v.how = "sat" -> Saturated(Sat(v), Tm(v), [short |-> v.p.short, time |-> 60 * v.p.time])
  IN Clause("exactly the excess is flagged", Set(o.f) = want)
  \cup Clause("all others are cleared", \A k \in 1..Len(o.f) : o.f[k] \in {0, 1})
  \cup Clause("nothing else changes", o.rest = 1)
TInit == i = 1 /\ WInit(<<>>, <<>>)
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i].in, Recs[i].out)) /\ Finished(i) /\ i' = i + 1 /\ UNCHANGED <<w, t, pos, run, hit>>
TraceSpec == TInit /\ [][TNext]_<<i, w, t, pos, run, hit>>
===============================================================================
