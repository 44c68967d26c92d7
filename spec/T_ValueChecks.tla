---------------------------- MODULE T_ValueChecks ----------------------------
EXTENDS ValueChecks, TraceBase
VARIABLE i
(* everything in units K times finer, so that a value may lie the least bit beside another: e = -1, 0 or 1 *)
K == 1000
Fine(x) == IF x = NoVal THEN NoVal ELSE K * x
E(v) == IF "e" \in DOMAIN v THEN v.e ELSE 0
X(v) == IF v.v = NoVal THEN NoVal ELSE K * v.v + E(v)
Val(v, o) ==
     Clause("missing value", o.noval = NoValue(v.v))
  \cup Clause("missing norm", o.nonorm = NoNorm(v.c))
  \cup Clause("hard limit", o.hard = HardLimit(X(v), K * v.a, K * v.b))
  \cup Clause("climatology", o.clim = Clim(X(v), Fine(v.c), K * v.lim))
  \cup Clause("standardised climatology", o.std = ClimStd(X(v), Fine(v.c), Fine(v.sd), K * (v.a + 1), K * (v.b + 1), v.lim))
  \cup Clause("standardised climatology with low bar", v.sd # 0 => o.low = ClimLow(X(v), Fine(v.c), Fine(v.sd), v.lim, K * v.a))
  \cup Clause("supersaturation", o.ssat = SuperSat(X(v), Fine(v.c)))
Freez(v, o) ==
     Clause("freezing", o.f = Freeze(X(v), K * v.unc, K * v.fp, v.n))
  \cup Clause("freezing with the default limit", o.fd = B(v.c # NoVal /\ v.c < -180))
Wind(v, o) == Clause("wind consistency", o.w = WindFlag(v.w, v.d, v.lim))
Verdict(r) == CASE r.k = "val" -> Val(r.in, r.out)
                [] r.k = "freez" -> Freez(r.in, r.out)
                [] r.k = "wind" -> Wind(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
