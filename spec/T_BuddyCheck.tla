----------------------------- MODULE T_BuddyCheck -----------------------------
EXTENDS BuddyCheck, TraceBase
VARIABLE i
FlagOf(fl, t, n) == LET S == {k \in 1..Len(fl) : fl[k][1] = t /\ fl[k][2] = n} IN
   IF S = {} THEN 9 ELSE fl[CHOOSE k \in S : \A q \in S : q <= k][3]
Passes(fl, filt) == \A k \in 1..Len(filt) : FlagOf(fl, filt[k][1], filt[k][2]) = filt[k][3]
Collection(v) == [k \in 1..Len(v.reps) |-> LET r == v.reps[k] e == IF Passes(r.fl, v.filt) THEN 1 ELSE 0 IN
                    [c |-> CellOf(r), an |-> IF e = 1 THEN r.val - r.norm ELSE 0, el |-> e]]
(* flags allowed: where rounding in the mean decides, or the probability is next to a tenth, either *)
Allowed(v, g, x) ==
  IF x.el = 0 THEN {0}
  ELSE IF v.bayes = 0 THEN
     LET w == Verdicts(g, x.c, v.p) s == Against(x.an, w) IN
     IF s = 0 /\ ~w.exact THEN {0, 1} ELSE {IF s >= 0 THEN 1 ELSE 0}
  ELSE LET m == Gross(g, x, v.p) IN Tenth(m - v.tol)..Tenth(m + v.tol)
DeckV(v, o) ==
  LET d == Collection(v) g == World(d)
      Right(f) == \A k \in 1..Len(d) : f[k] \in Allowed(v, g, d[k]) IN
     Clause("flags of eligible reports", \A k \in 1..Len(d) : d[k].el = 1 => o.f[k] \in Allowed(v, g, d[k]))
  \cup Clause("other reports are cleared", \A k \in 1..Len(d) : d[k].el = 0 => o.f[k] = 0)
  \cup Clause("the order of the reports does not matter", Right(o.perm))
  \cup Clause("checking again changes nothing", o.again = o.f)
  \cup Clause("nothing else changes", o.rest = 1)
(* the probability functions themselves; probabilities in 1/1000, densities in 1e-6 *)
Near(a, b, tol) == AbsI(a - b) <= tol
Post(v, o) ==
  LET tp == IF v.s \in {1, 2, 4, 8} THEN 3 ELSE 12
      tg == IF v.s \in {1, 2, 4, 8} THEN 3 ELSE 20
      Want(pa, x) == Posterior(pa, v.pb, v.q, v.rh, v.rl, x, 1250 * v.mu, 2500 * v.s)
      D(x) == Between(Z(x * 1250 - v.q * 625 - 1250 * v.mu, 2500 * v.s), Z(x * 1250 + v.q * 625 - 1250 * v.mu, 2500 * v.s))
      N == Between(Z(v.rl * 1250 - v.q * 625 - 1250 * v.mu, 2500 * v.s), Z(v.rh * 1250 + v.q * 625 - 1250 * v.mu, 2500 * v.s))
  IN Clause("posterior probability", \A k \in 1..Len(v.xs) : Near(o.p[k], Want(v.pa, v.xs[k]), tp))
  \cup Clause("a probability", \A k \in 1..Len(o.p) : o.p[k] \in 0..1000 /\ o.p2[k] \in 0..1000)
  \cup Clause("grows with the distance", \A k \in 1..Len(v.xs) : \A j \in 1..Len(v.xs) :
         AbsI(v.xs[k] - v.mu) <= AbsI(v.xs[j] - v.mu) => o.p[k] <= o.p[j])
  \cup Clause("does not shrink with the prior", \A k \in 1..Len(v.xs) : o.p[k] <= o.p2[k])
  \cup Clause("likelihood of a good value", \A k \in 1..Len(v.xs) : Near(o.good[k], MulDiv(D(v.xs[k]), 1000000, N), tg + (IF tg = 3 THEN 0 ELSE o.good[k] \div 4000)))
  \cup Clause("likelihood of a gross value", Near(o.gross, (1000000 * v.q) \div (v.rh - v.rl + v.q), 1))
(* good values: the likelihoods of all values on the lattice add up to one *)
Total(v, o) == Clause("likelihoods of all values add up to one", Near(o.good, 1000000, 2) /\ Near(o.gross, 1000000, 2))
Verdict(r) == CASE r.k \in {"mds", "bayes"} -> DeckV(r.in, r.out)
                [] r.k = "post" -> Post(r.in, r.out)
                [] r.k = "total" -> Total(r.in, r.out)
TInit == i = 1 /\ cells = <<>> /\ deck = <<>> /\ flag = <<>>
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1 /\ UNCHANGED <<cells, deck, flag>>
TraceSpec == TInit /\ [][TNext]_<<i, cells, deck, flag>>
===============================================================================
