---------------------------- MODULE T_ReportStore -----------------------------
(* Each record: two reports, operations on them, and everything that can be    *)
(* read of the watched names after each.                                       *)
EXTENDS ReportStore, TraceBase
VARIABLES i, j
In == Recs[i].in
Obs == Recs[i].out.obs
TInit == i = 1 /\ j = 0 /\ SInit(Recs[1].in.recs)
Do(o) == CASE o.op = "set" -> SetVar(o.u, o.n, o.v)
           [] o.op = "ext" -> SetExt(o.u, o.n, o.v)
           [] o.op = "norm" -> SetNorm(o.u, o.n, o.c, o.s)
           [] o.op = "half" -> SetHalf(o.u, o.n, o.h, o.v)
           [] o.op = "reset" -> Reset(o.u)
(* what one report shows of name n: x *)
Shows(u, n, x) ==
     Clause("a variable reads as last set, or as the extra value of that name", x.var = Var(u, n))
  \cup Clause("an extra value reads as last set, an unknown one is refused", x.ext = (IF HasExt(u, n) THEN ext[u][n] ELSE Exc))
  \cup Clause("a norm reads as last set", x.clim = Norm(u, n, "clim") /\ x.stdev = Norm(u, n, "stdev"))
  \cup Clause("an unknown kind of norm is refused", x.odd = (IF n \in DOMAIN clim[u] THEN Exc ELSE None))
  \cup Clause("anomaly is the value less its norm", x.anom = Anom(u, n))
  \cup Clause("normalised anomaly", LET s == Norm(u, n, "stdev") IN
           IF Anom(u, n) = Missing \/ s = Missing THEN x.norm = None ELSE s = 0 \/ x.norm * s = Anom(u, n) * 64)
Verdict(b) ==
  UNION {UNION {Shows(u, In.watch[m], b.reps[u].shows[m]) : m \in 1..Len(In.watch)} : u \in DOMAIN vars}
  \cup UNION {LET x == b.reps[u] IN
         Clause("saturated exactly when dew point equals air temperature", x.sat = (IF Saturated(u) THEN 1 ELSE 0))
    \cup Clause("longitude from -180 to 180", Var(u, "LON") # Missing => x.lon = Longitude(u))
    \cup Clause("latitude", x.lat = Var(u, "LAT")) : u \in DOMAIN vars}
  \cup Clause("the last report of the voyage", b.last = Var(Cardinality(DOMAIN vars), "UID"))
TNext ==
  \/ /\ i <= NRecs /\ j = 0
     /\ Report(i, Verdict(Obs[1]))
     /\ j' = 1 /\ UNCHANGED <<i, vars, ext, clim, refused>>
  \/ /\ i <= NRecs /\ j >= 1 /\ j <= 2 * Len(In.ops) /\ j % 2 = 1
     /\ Do(In.ops[(j + 1) \div 2])
     /\ j' = j + 1 /\ UNCHANGED i
  \/ /\ i <= NRecs /\ j >= 1 /\ j <= 2 * Len(In.ops) /\ j % 2 = 0
     /\ LET b == Obs[(j \div 2) + 1] IN
          Report(i, Clause("what cannot be set is refused, all else accepted", b.refused = refused) \cup Verdict(b))
     /\ j' = j + 1 /\ UNCHANGED <<i, vars, ext, clim, refused>>
  \/ /\ i <= NRecs /\ j > 2 * Len(In.ops)
     /\ Finished(i)
     /\ i' = i + 1 /\ j' = 0 /\ refused' = 0
     /\ LET R == IF i < NRecs THEN Recs[i + 1].in.recs ELSE <<>> IN
        /\ vars' = [u \in DOMAIN R |-> Restrict(R[u], Names)]
        /\ ext' = [u \in DOMAIN R |-> Unpacked(R[u])]
        /\ clim' = [u \in DOMAIN R |-> <<>>]
TraceSpec == TInit /\ [][TNext]_<<vars, ext, clim, refused, i, j>>
=============================================================================
