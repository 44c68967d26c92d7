------------------------------ MODULE Averages ------------------------------
(* Averages that resist outliers, of samples of integers (the lattice of the   *)
(* harness).  An average is a pair <<total, count>>.                           *)
EXTENDS Integers, Sequences, FiniteSets
(* the sample in ascending order *)
RECURSIVE Sorted(_)
Insert(s, x) == LET k == Cardinality({i \in DOMAIN s : s[i] <= x})
                IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[Len(s)] + Sum(SubSeq(s, 1, Len(s) - 1))
Plain(s) == <<Sum(s), Len(s)>>
(* the outer quarters take the value next to them *)
Winsorised(s) ==
  LET n == Len(s)
      k == n \div 4
      t == Sorted(s)
  IN <<Sum([i \in 1..n |-> t[IF i <= k THEN k + 1 ELSE IF i > n - k THEN n - k ELSE i]]), n>>
(* one in "trim" left out at each end; trim 0 leaves out nothing *)
Cut(n, trim) == IF trim = 0 THEN 0 ELSE n \div trim
Left(s, trim) == LET k == Cut(Len(s), trim) IN SubSeq(Sorted(s), k + 1, Len(s) - k)
Trimmed(s, trim) == Plain(Left(s, trim))
(* square of the standard deviation of what is left: <<n * sum of squares - square of sum, n * n>> *)
RECURSIVE SumSq(_)
SumSq(s) == IF s = <<>> THEN 0 ELSE s[Len(s)] * s[Len(s)] + SumSq(SubSeq(s, 1, Len(s) - 1))
Spread(s, trim) == LET l == Left(s, trim) IN <<Len(l) * SumSq(l) - Sum(l) * Sum(l), Len(l) * Len(l)>>
(* the multiplier of the highest limit that is exceeded; 4 where there are no neighbours *)
Multiplier(n, limits, mults) ==
  IF n = 0 THEN 4000
  ELSE LET k == CHOOSE i \in DOMAIN limits : /\ n > limits[i]
                                             /\ \A j \in DOMAIN limits : n > limits[j] => j <= i
       IN mults[k]
=============================================================================
