----------------------------- MODULE T_Background -----------------------------
EXTENDS Background, TraceBase
VARIABLE i
N(v) == Len(v.reps)
(* a report as given: day (0, 1, or 9: as the day test says), sst and bg in 1/8 K, ice in hundredths, bv the error variance in 1/64 K^2 *)
Day(v, o, k) == IF v.reps[k].day = 9 THEN o.day[k] ELSE v.reps[k].day
Seen(v, o, k) == LET r == v.reps[k] IN Day(v, o, k) = 0 /\ r.bg # None /\ r.ice <= 15      \* no ice known: None is small
BadIce(r) == r.ice # None /\ (r.ice < 0 \/ r.ice > 100)
BadMatch(r) == r.bg < -40 \/ r.bg > 360 \/ r.bv = None \/ r.bv < 0 \/ r.bv > 640
Left(v, r) == v.what = "rec" /\ r.bv # None /\ r.bv > v.p.lim * v.p.lim     \* masked: out of the assessment of a whole record
Refused(v, o) == \/ v.spoilt = 1
                 \/ \E k \in 1..N(v) : BadIce(v.reps[k]) \/ (Seen(v, o, k) /\ ~Left(v, v.reps[k]) /\ BadMatch(v.reps[k]))
Root(z) == IF z < 0 THEN 0 ELSE CHOOSE q \in 0..26 : q * q <= z /\ (q + 1) * (q + 1) > z
Tr(v, o) == [k \in 1..N(v) |-> LET r == v.reps[k] IN
             [el |-> IF Seen(v, o, k) THEN 1 ELSE 0, a |-> IF r.bg = None THEN 0 ELSE r.sst - r.bg, b |-> IF r.bv = None THEN 0 ELSE Root(r.bv)]]
Flagged1(f) == {k \in 1..Len(f) : f[k] = 1}
Same(f, n, x) == f = [k \in 1..n |-> x]
VTail(v, o) == LET lo == TailFlags(Tr(v, o), v.p, FALSE)
                   hi == TailFlags(Tr(v, o), v.p, TRUE)
               IN Clause("every report has the flags of both tails, 0 or 1", \A j \in 1..2 : Len(o.f[j]) = N(v) /\ \A k \in 1..N(v) : o.f[j][k] \in {0, 1})
             \cup Clause("exactly the start tail is flagged", lo = hi => Flagged1(o.f[1]) = lo[1])
             \cup Clause("exactly the end tail is flagged", lo = hi => Flagged1(o.f[2]) = lo[2])
VRec(v, o) == LET lo == RecordFlags(Tr(v, o), v.p, FALSE)
                  hi == RecordFlags(Tr(v, o), v.p, TRUE)
                  C(name, j) == Clause(name, lo[j] = hi[j] => Same(o.f[j], N(v), lo[j]))
              IN C("the whole record is flagged as biased as documented", 1)
            \cup C("the whole record is flagged as noisy as documented", 2)
            \cup C("the whole record is flagged as a bad short one as documented", 3)
VBack(v, o) ==
  IF v.pt # 7 THEN Clause("only drifters are checked", o.exc = 0 /\ o.f = v.old)
  ELSE IF Refused(v, o) THEN Clause("records without valid matches or out of order are refused", o.exc = 1)
  ELSE Clause("the check runs", o.exc = 0)
       \cup (IF v.what = "tail" THEN VTail(v, o) ELSE VRec(v, o))
  \cup Clause("nothing else changes", o.rest = 1)
Verdict(r) == VBack(r.in, r.out)
TInit == i = 1
TNext == i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
