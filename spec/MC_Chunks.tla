------------------------------- MODULE MC_Chunks -------------------------------
(* Month by month, a counter that opens a chunk at a report after a silence and  *)
(* remembers the last report, against the definition.                            *)
EXTENDS Chunks, TLC, Json
CONSTANTS MaxLen, Gaps
VARIABLES h, gap, done, open, last, silence
vars == <<h, gap, done, open, last, silence>>
Init == h = <<>> /\ gap \in Gaps /\ done = <<>> /\ open = 0 /\ last = 0 /\ silence = gap
Month(x) ==
  LET k == Len(h) + 1 IN
  /\ Len(h) < MaxLen /\ h' = Append(h, x) /\ UNCHANGED gap
  /\ IF x = 0 THEN silence' = silence + 1 /\ UNCHANGED <<done, open, last>>
     ELSE /\ silence' = 0 /\ last' = k
          /\ IF silence >= gap THEN /\ open' = k
                                    /\ done' = IF open = 0 THEN done ELSE Append(done, <<open, last>>)
             ELSE UNCHANGED <<open, done>>
Next == \E x \in {0, 1} : Month(x)
CSpec == Init /\ [][Next]_vars
C == Chunks(h, gap)
n == Len(h)
CounterIsDefinition == C = (IF open = 0 THEN done ELSE Append(done, <<open, last>>))
EveryMonthOnce == \A k \in Reports(h) : Cardinality({j \in 1..Len(C) : C[j][1] <= k /\ k <= C[j][2]}) = 1
EndsAtReports == \A j \in 1..Len(C) : h[C[j][1]] = 1 /\ h[C[j][2]] = 1
SilenceBetween == \A j \in 1..Len(C) - 1 : C[j + 1][1] - C[j][2] > gap
NoSilenceWithin == \A j \in 1..Len(C) : \A k \in C[j][1]..C[j][2] : \E q \in Reports(h) : q >= k - gap /\ q <= k /\ q >= C[j][1]
(* appending silence never changes the chunks, and makes the last one closed in the end *)
Regular == \A j \in 1..Len(C) : LET cl == Class(n, gap, C[j]) IN ("regular" \in cl) <=> (cl \cap {"start_edge_case", "end_edge_case"} = {})
NewIsClosed == \A j \in 1..Len(C) : LET cl == Class(n, gap, C[j]) IN "new" \in cl => "end_edge_case" \notin cl
OneNew == Cardinality({j \in 1..Len(C) : "new" \in Class(n, gap, C[j])}) <= 1
(* running "new" once a month from the beginning submits every chunk exactly once, as soon as it is closed *)
Prefix(k) == SubSeq(h, 1, k)
NewSubmitsOnce == \A j \in 1..Len(C) : n - C[j][2] >= gap =>
   Cardinality({k \in 1..n : \E q \in 1..Len(Chunks(Prefix(k), gap)) :
      Chunks(Prefix(k), gap)[q] = C[j] /\ "new" \in Class(k, gap, C[j])}) = 1
(* what is submitted by standard does not change as months are added *)
StandardIsStable == \A k \in 1..n : \A q \in 1..Len(Chunks(Prefix(k), gap)) : LET c == Chunks(Prefix(k), gap)[q] IN
   "regular" \in Class(k, gap, c) => \E j \in 1..Len(C) : C[j] = c /\ "regular" \in Class(n, gap, c)
Emit == n = MaxLen => PrintT("BEH chunks " \o ToJson([h |-> h, gap |-> gap]))
=============================================================================
