---------------------------- MODULE T_ReportTime -----------------------------
(* Each record: a pair of reports, field updates to them, and their date-times *)
(* and comparison after each update.                                           *)
EXTENDS Calendar, TraceBase
VARIABLES i, j, fa, fb
RT == INSTANCE ReportTime WITH fields <- fa, dt <- <<>>
In == Recs[i].in
Obs == Recs[i].out.obs
TInit == i = 1 /\ j = 0 /\ fa = Recs[1].in.a.f /\ fb = Recs[1].in.b.f
B(x) == IF x THEN 1 ELSE 0
Verdict(f, g, b) ==
  LET p == RT!DtOf(f)
      q == RT!DtOf(g)
      x == In.a.id
      y == In.b.id
  IN Clause("date-time is the one the fields give", b.p = p /\ b.q = q)
  \cup Clause("field reads back", b.fp = f /\ b.fq = g)
  \cup Clause("later reports are greater", b.gt = B(RT!Before(y, q, x, p)) /\ b.lt = B(RT!Before(x, p, y, q)))
  \cup Clause("equal exactly when identifier and time are", b.eq = B(RT!Same(x, p, y, q)) /\ b.ne = 1 - b.eq)
  \cup Clause("greater or equal, less or equal",
         /\ b.ge = B(RT!Before(y, q, x, p) \/ RT!Same(x, p, y, q))
         /\ b.le = B(RT!Before(x, p, y, q) \/ RT!Same(x, p, y, q)))
TNext ==
  \/ /\ i <= NRecs /\ j = 0
     /\ Report(i, Verdict(fa, fb, Obs[1]))
     /\ j' = 1 /\ UNCHANGED <<i, fa, fb>>
  \/ /\ i <= NRecs /\ j >= 1 /\ j <= Len(In.ops)
     /\ LET o == In.ops[j] IN
          /\ fa' = (IF o.w = 1 THEN [fa EXCEPT ![o.n] = o.v] ELSE fa)
          /\ fb' = (IF o.w = 2 THEN [fb EXCEPT ![o.n] = o.v] ELSE fb)
     /\ Report(i, Verdict(fa', fb', Obs[j + 1]))
     /\ j' = j + 1 /\ i' = i
  \/ /\ i <= NRecs /\ j > Len(In.ops)
     /\ Finished(i)
     /\ i' = i + 1 /\ j' = 0
     /\ fa' = (IF i < NRecs THEN Recs[i + 1].in.a.f ELSE fa)
     /\ fb' = (IF i < NRecs THEN Recs[i + 1].in.b.f ELSE fb)
TraceSpec == TInit /\ [][TNext]_<<i, j, fa, fb>>
=============================================================================
