------------------------------ MODULE Background -----------------------------
(* A drifter's sea temperatures against a background field: the tail check and  *)
(* the whole-record checks.  A report is [el, a, b]: can it be assessed (1), its *)
(* difference from the background and the background error, both in 1/8 K.      *)
(* Parameters: nl, ns, n: numbers of standard deviations, in halves; inter,      *)
(* intra, lim (of the background error), bias in 1/8 K.                          *)
(* tie: whether a comparison of numbers that rounding may part says "exceeds".   *)
EXTENDS Integers, Sequences, FiniteSets
AbsB(v) == IF v < 0 THEN -v ELSE v
MaxS(S) == CHOOSE m \in S : \A z \in S : z <= m
MinS(S) == CHOOSE m \in S : \A z \in S : z >= m
Sum(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE F[k - 1] + s[k] IN F[Len(s)]
Squares(s) == [k \in 1..Len(s) |-> s[k] * s[k]]
Exceeds(x, y, exact, tie) == x > y \/ (x = y /\ ~exact /\ tie)
(* a standard deviation that is a whole number is known exactly *)
RECURSIVE WholeRoot(_, _, _)
WholeRoot(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN WholeRoot(v, m, hi) ELSE WholeRoot(v, lo, m)
IsSquare(v) == LET q == WholeRoot(v, 0, 46340) IN q * q = v

(* trimming the same number of the largest and the smallest values, in any order of the rest *)
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Extreme(s, up) == LET v == {s[k] : k \in 1..Len(s)}
                      m == IF up THEN MaxS(v) ELSE MinS(v)
                  IN CHOOSE k \in 1..Len(s) : s[k] = m
RECURSIVE Trim(_, _)
Trim(s, c) == IF c = 0 THEN s ELSE LET u == Without(s, Extreme(s, TRUE)) IN Trim(Without(u, Extreme(u, FALSE)), c - 1)
Trimmed(s, part) == Trim(s, Len(s) \div part)

Unreliable(w, p) == \E k \in 1..Len(w) : w[k].b > p.lim
(* too biased: |mean| > n sqrt(inter^2 + mean error^2) *)
Biased(w, p, tie) ==
  LET A == Trimmed([k \in 1..Len(w) |-> w[k].a], 100)
      E == Sum([k \in 1..Len(w) |-> w[k].b])
      L == Len(w)
      S == AbsB(Sum(A))
  IN IF Len(A) = L THEN Exceeds(4 * S * S, p.nl * p.nl * (p.inter * p.inter * L * L + E * E), E % L = 0 \/ L \in {2, 4, 8, 16}, tie)
     ELSE LET m == (S * 200) \div Len(A)        \* long windows, to a two-hundredth
              e == (E * 200) \div L
              r == p.nl * p.nl * ((p.inter * p.inter * 40000 + e * e) \div 4)
          IN IF tie THEN (m + 1) * (m + 1) > r - r \div 200 ELSE m * m > r + r \div 200
(* too noisy: standard deviation > sqrt(intra^2 + mean square error) *)
Noisy(w, p, tie) ==
  LET A == Trimmed([k \in 1..Len(w) |-> w[k].a], 100)
      B == [k \in 1..Len(w) |-> w[k].b]
      L == Len(w)
      N == Len(A)
      S == Sum(A)
      V == N * Sum(Squares(A)) - S * S            \* N^2 times the variance
  IN IF N = L THEN Exceeds(V, L * L * p.intra * p.intra + L * Sum(Squares(B)),
                    S % L = 0 /\ IsSquare(p.intra * p.intra + B[1] * B[1]) /\ \A k \in 1..L : B[k] = B[1], tie)
     ELSE LET v == (V * 10) \div (N * N)
              r == 10 * p.intra * p.intra + (10 * Sum(Squares(B))) \div L
          IN IF tie THEN v + 1 > r - 1 ELSE v > r + 1
(* beyond n standard deviations of everything; on this lattice never parted by rounding *)
Gross(r, p, n) == 4 * r.a * r.a > n * n * (r.b * r.b + p.inter * p.inter + p.intra * p.intra)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

LongFails(w, p, tie) == ~Unreliable(w, p) /\ (Biased(w, p, tie) \/ Noisy(w, p, tie))
ShortFails(w, p) == ~Unreliable(w, p) /\ Cardinality({k \in 1..Len(w) : Gross(w[k], p, p.ns)}) >= p.nbad
(* how many windows of length L fail from the start on without a break *)
RECURSIVE Run(_, _, _, _)
Run(s, L, Fails(_), k) == IF k + L - 1 > Len(s) \/ ~Fails(SubSeq(s, k, k + L - 1)) THEN k - 1 ELSE Run(s, L, Fails, k + 1)
(* the reports that can be assessed: s.  Number of them in the start tail and in the end tail. *)
Tails(s, p, tie) ==
  LET n == Len(s)
      LF(w) == LongFails(w, p, tie)
      SF(w) == ShortFails(w, p)
      half == p.lw \div 2
      UpTo(c) == IF c = 0 THEN 0 ELSE c + half        \* up to the centre of the last failing window
      a1 == IF n < p.lw THEN 0 ELSE UpTo(Run(s, p.lw, LF, 1))
      b1 == IF n < p.lw THEN 0 ELSE UpTo(Run(Rev(s), p.lw, LF, 1))
      left == n - a1 - b1
      mid == SubSeq(s, a1 + 1, n - b1)
      Short(q) == LET c == Run(q, p.sw, SF, 1) IN IF c = Len(q) - p.sw + 1 THEN Len(q) ELSE c
      a2 == IF left < p.sw THEN 0 ELSE Short(mid)
      b2 == IF left < p.sw THEN 0 ELSE Short(Rev(mid))
  IN IF n = 0 \/ left <= 0 \/ a1 + a2 + b1 + b2 >= n THEN <<0, 0>> ELSE <<a1 + a2, b1 + b2>>
Assessed(tr) == SelectSeq(tr, LAMBDA r : r.el = 1)
Where(tr) == LET F[k \in 0..Len(tr)] == IF k = 0 THEN <<>> ELSE IF tr[k].el = 1 THEN Append(F[k - 1], k) ELSE F[k - 1] IN F[Len(tr)]
(* the flagged reports of the whole record: <<start tail, end tail>> *)
TailFlags(tr, p, tie) ==
  LET w == Where(tr)
      t == Tails(Assessed(tr), p, tie)
  IN << IF t[1] = 0 THEN {} ELSE 1..w[t[1]], IF t[2] = 0 THEN {} ELSE w[Len(w) + 1 - t[2]]..Len(tr) >>

(* ---- whole records; el: 1 can be assessed, 0 not; a report whose background error is too large (b > lim) is left out *)
Reliable(tr, p) == SelectSeq(tr, LAMBDA r : r.el = 1 /\ r.b <= p.lim)
Masked(tr, p) == \E k \in 1..Len(tr) : tr[k].b > p.lim
RecordFlags(tr, p, tie) ==       \* <<biased, noisy, short>>
  LET s == Reliable(tr, p)
      L == Len(s)
      F(x) == IF x THEN 1 ELSE 0
  IN IF L = 0 THEN <<0, 0, 0>>
     ELSE IF L >= p.neval THEN << F(AbsB(Sum([k \in 1..L |-> s[k].a])) > p.bias * L),
            F(LET A == [k \in 1..L |-> s[k].a]
                  B == [k \in 1..L |-> s[k].b]
                  S == Sum(A)
              IN Exceeds(L * Sum(Squares(A)) - S * S, L * L * p.intra * p.intra + L * Sum(Squares(B)),
                    S % L = 0 /\ IsSquare(p.intra * p.intra + B[1] * B[1]) /\ \A k \in 1..L : B[k] = B[1], tie)), 0 >>
     ELSE << 0, 0, F(~Masked(tr, p) /\ Cardinality({k \in 1..L : Gross(s[k], p, p.n)}) >= p.nbad) >>
=============================================================================
