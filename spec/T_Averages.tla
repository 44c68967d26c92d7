----------------------------- MODULE T_Averages -----------------------------
(* s: sample in eighths; means in 1/1000, deviations in 1/100 of an eighth           *)
EXTENDS Averages, TraceBase
VARIABLE i
Abs(x) == IF x < 0 THEN -x ELSE x
Is(o, a, unit) == Abs(o * a[2] - a[1] * unit) <= a[2]
VMeans(v, o) ==
  LET some == Left(v.s, v.trim) # <<>>
  IN Clause("winsorised mean", Is(o.win, Winsorised(v.s), 1000))
  \cup Clause("trimmed mean (qc)", some => Is(o.trim, Trimmed(v.s, v.trim), 1000))
  \cup Clause("trimmed mean (trackqc)", some => Is(o.trim2, Trimmed(v.s, v.trim), 1000))
  \cup Clause("trimmed standard deviation", some =>
         LET p == Spread(v.s, v.trim) IN
         /\ o.std >= 0
         /\ Abs((o.std * o.std) \div 100 - (p[1] \div p[2]) * 100 - ((p[1] % p[2]) * 100) \div p[2]) <= o.std \div 40 + 3)
  \cup Clause("the order of the sample does not matter", o.win2 = o.win /\ o.trim3 = o.trim /\ o.trim4 = o.trim2 /\ o.std2 = o.std)
  \cup Clause("the sample given to the tracking averages is left as it was", o.kept = 1)
VMult(v, o) == Clause("multiplier of the highest limit exceeded", o.m = Multiplier(v.n, v.limits, v.mults))
VRefuse(v, o) == Clause("an impossible table is refused", o.m = Exc)
Verdict(r) == CASE r.k = "means" -> VMeans(r.in, r.out)
                     [] r.k = "mult" -> VMult(r.in, r.out)
                     [] r.k = "refuse" -> VRefuse(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
