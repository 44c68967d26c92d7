-------------------------------- MODULE Buddy ---------------------------------
(* The comparison grid of the buddy checks: cells <<column, row, pentad>> that  *)
(* collect anomalies (in 1/8), and what the occupied cells around a cell say.   *)
EXTENDS Integers, Sequences, FiniteSets, CosTable
CONSTANTS NX, NY, NP        \* columns, rows, pentads of the world
VARIABLES cells             \* occupied cell -> [s |-> sum, n |-> number]
Occ == DOMAIN cells
BuInit == cells = <<>>
Plus(g, c, an) == [d \in DOMAIN g \cup {c} |->
    IF d # c THEN g[d]
    ELSE IF c \in DOMAIN g THEN [s |-> g[c].s + an, n |-> g[c].n + 1] ELSE [s |-> an, n |-> 1]]
Add(c, an) == cells' = Plus(cells, c, an)
RECURSIVE GridOf(_)
GridOf(rs) == IF rs = <<>> THEN <<>>
              ELSE Plus(GridOf(SubSeq(rs, 1, Len(rs) - 1)), rs[Len(rs)].c, rs[Len(rs)].an)

AbsI(x) == IF x < 0 THEN -x ELSE x
Round(d, m) == LET x == AbsI(d) % m IN IF x <= m - x THEN x ELSE m - x
(* occupied cells within the span of cell c, other than c itself; rad = <<columns, rows, pentads>> *)
Neighbours(g, c, rad, wide(_, _)) ==
   {d \in DOMAIN g \ {c} : /\ AbsI(d[2] - c[2]) <= rad[2]
                           /\ Round(d[1] - c[1], NX) <= wide(rad[1], c[2])
                           /\ Round(d[3] - c[3], NP) <= rad[3]}
(* means of cells and of sets of cells, over the common denominator LC *)
LC == 27720
CellMean(g, c) == (g[c].s * LC) \div g[c].n
RECURSIVE SumMeans(_, _)
SumMeans(g, S) == IF S = {} THEN 0 ELSE LET d == CHOOSE x \in S : TRUE IN CellMean(g, d) + SumMeans(g, S \ {d})
RECURSIVE CountIn(_, _)
CountIn(g, S) == IF S = {} THEN 0 ELSE LET d == CHOOSE x \in S : TRUE IN g[d].n + CountIn(g, S \ {d})
(* the multiplier of the highest limit exceeded *)
Multiplier(n, thr, mult) == IF n = 0 THEN 8
   ELSE mult[CHOOSE k \in 1..Len(thr) : thr[k] < n /\ (k = Len(thr) \/ thr[k + 1] >= n)]
(* the first shell with a neighbour; 0 if none *)
Shell(g, c, lims, wide(_, _)) ==
   LET P == {k \in 1..Len(lims) : Neighbours(g, c, lims[k], wide) # {}}
   IN IF P = {} THEN 0 ELSE CHOOSE k \in P : \A q \in P : k <= q
=============================================================================
