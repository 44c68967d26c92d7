-------------------------------- MODULE Chunks --------------------------------
(* The months in which a drifter reports, h: a sequence of 0 and 1, cut into     *)
(* chunks wherever it is silent for gap months or more.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Reports(h) == {k \in 1..Len(h) : h[k] = 1}
Starts(h, gap) == {k \in Reports(h) : \A j \in (k - gap)..(k - 1) : j \in DOMAIN h => h[j] = 0}
LastOf(S) == CHOOSE m \in S : \A z \in S : z <= m
FirstOf(S) == CHOOSE m \in S : \A z \in S : m <= z
(* the last report before the next chunk starts *)
EndBefore(h, S, s) == LET N == {u \in S : u > s} IN
                      LastOf({k \in s..(IF N = {} THEN Len(h) ELSE FirstOf(N) - 1) : h[k] = 1})
EndOf(h, gap, s) == EndBefore(h, Starts(h, gap), s)
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == FirstOf(S) IN <<m>> \o InOrder(S \ {m})
(* << <<first, last>>, ... >> *)
Chunks(h, gap) == LET S == TLCEval(Starts(h, gap)) s == InOrder(S) IN TLCEval([k \in 1..Len(s) |-> <<s[k], EndBefore(h, S, s[k])>>])
(* how a chunk lies in the n months that were read *)
Class(n, gap, c) == LET before == c[1] - 1
                        after == n - c[2]
                        start == before < gap
                        end == after < gap
                    IN (IF start THEN {"start_edge_case"} ELSE {}) \cup (IF end THEN {"end_edge_case"} ELSE {})
                       \cup (IF after = gap THEN {"new"} ELSE {}) \cup (IF ~start /\ ~end THEN {"regular"} ELSE {})
Selected(mode, cl) == CASE mode = "all" -> TRUE
                        [] mode = "standard" -> "regular" \in cl
                        [] mode = "new" -> "new" \in cl
                        [] mode = "noend" -> "end_edge_case" \notin cl
                        [] OTHER -> FALSE
(* month number k of the months that begin with y, m *)
MonthNo(y, m, k) == LET z == 12 * y + (m - 1) + (k - 1) IN <<z \div 12, (z % 12) + 1>>
=============================================================================
