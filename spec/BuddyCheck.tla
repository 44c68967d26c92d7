------------------------------ MODULE BuddyCheck ------------------------------
(* The buddy checks of a collection: each report has a cell, an anomaly and     *)
(* either passes the filter (el = 1) or not; a check sets one flag per report.  *)
EXTENDS BuddyParams, NormalTable
VARIABLES deck, flag
RECURSIVE Pass(_)
Pass(d) == IF d = <<>> THEN <<>> ELSE LET r == Pass(SubSeq(d, 1, Len(d) - 1)) IN
   IF d[Len(d)].el = 1 THEN Append(r, [c |-> d[Len(d)].c, an |-> d[Len(d)].an]) ELSE r
World(d) == GridOf(Pass(d))
(* -1 well inside, 0 at the limit, 1 beyond *)
Stand(g, x, p) == Against(x.an, Verdicts(g, x.c, p))
BuddyFlag(g, x, p) == IF x.el = 0 THEN 0 ELSE IF Stand(g, x, p) >= 0 THEN 1 ELSE 0
(* square of the combined deviation times 1000 (deviations in halves, sm in halves, ns whole) *)
Bayes2(g, c, p) ==
   LET S == Neighbours(g, c, p.blim, Widen)
       N == Cardinality(S)
       s1 == SDAt(1, p.n, c) s2 == SDAt(2, p.n, c) s3 == SDAt(3, p.n, c)
       sm2 == p.sm * p.sm
       each == sm2 + p.ns * s2 * s2       \* per observation, in quarters
   IN (1000 * (sm2 + s1 * s1 + p.ns * s2 * s2)) \div 4
      + (((((SumInv(g, S) * each) * 25) \div LC) * 10) \div (N * N))
      + (250 * s3 * s3) \div N
(* probability of gross error times 1000; limits +-rh in eighths, interval q in eighths, prior pa / pb *)
Gross(g, x, p) ==
   LET S == Neighbours(g, x.c, p.blim, Widen)
       N == Cardinality(S)
   IN IF N = 0 THEN PosteriorFlat(p.pa, p.pb)
      ELSE Posterior(p.pa, p.pb, p.q, p.rh, -p.rh, x.an,
             2 * (((SumMeans(g, S) \div N) * 625) \div LC), 10 * ISqrt(1000 * Bayes2(g, x.c, p)))
Tenth(m) == IF m < 0 THEN 0 ELSE IF m >= 1000 THEN 9 ELSE m \div 100
BayesFlag(g, x, p) == IF x.el = 0 THEN 0 ELSE Tenth(Gross(g, x, p))

BCInit == deck = <<>> /\ flag = <<>> /\ cells = <<>>
AddRep(x) == deck' = Append(deck, x) /\ flag' = Append(flag, 9) /\ UNCHANGED cells
Toggle(k) == deck' = [deck EXCEPT ![k].el = 1 - @] /\ UNCHANGED <<flag, cells>>
Check(p) == LET g == World(deck) IN
   /\ flag' = [k \in 1..Len(deck) |-> BuddyFlag(g, deck[k], p)]
   /\ UNCHANGED <<deck, cells>>
BayesCheck(p) == LET g == World(deck) IN
   /\ flag' = [k \in 1..Len(deck) |-> BayesFlag(g, deck[k], p)]
   /\ UNCHANGED <<deck, cells>>
===============================================================================
