------------------------------ MODULE T_BaseQC --------------------------------
EXTENDS BaseQC, TraceBase
VARIABLES i, j
RT == INSTANCE ReportTime WITH fields <- f, dt <- <<>>
In == Recs[i].in
Obs == Recs[i].out.obs
TInit == i = 1 /\ j = 1 /\ BInit(Recs[1].in.f)
Wrong(b) == {x \in FlagNames : b.fl[x] # fl'[x]}
Verdict(b) ==
     (IF Wrong(b) = {} THEN {} ELSE {"flag " \o x : x \in Wrong(b)})
  \cup Clause("no field changes but the missing hour", \A n \in DOMAIN f' : b.f[n] = f'[n])
  \cup Clause("the date-time is the one the fields give, the mended hour included",
         b.dt = RT!DtOf([YR |-> f'.YR, MO |-> f'.MO, DY |-> f'.DY, HR |-> IF f'.HR = NoVal THEN NoVal ELSE f'.HR * 100]))
TNext ==
  \/ /\ i <= NRecs /\ j <= Len(In.ops)
     /\ LET o == In.ops[j] IN IF o[1] = "run" THEN Run(o[2], In.n, In.p, Obs[j].day) ELSE Change(o[2], o[3])
     /\ Report(i, Verdict(Obs[j]))
     /\ j' = j + 1 /\ i' = i
  \/ /\ i <= NRecs /\ j > Len(In.ops)
     /\ Finished(i)
     /\ i' = i + 1 /\ j' = 1
     /\ (IF i < NRecs THEN f' = Recs[i + 1].in.f /\ fl' = [x \in FlagNames |-> Unset] ELSE UNCHANGED bvars)
TraceSpec == TInit /\ [][TNext]_<<bvars, i, j>>
=============================================================================
