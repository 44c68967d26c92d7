------------------------------- MODULE T_Chunks -------------------------------
EXTENDS Chunks, TraceBase
VARIABLE i
SetOf(s) == {s[k] : k \in 1..Len(s)}
(* the last word on every month *)
History(n, ops) == TLCEval([k \in 1..n |-> LET W == {j \in 1..Len(ops) : ops[j][1] = k} IN IF W = {} THEN 0 ELSE ops[LastOf(W)][2]])
Row(v, h, c) == MonthNo(v.y, v.m, c[1]) \o MonthNo(v.y, v.m, c[2])
VChunks(v, o) == LET h == History(v.n, v.ops)
                     C == Chunks(h, v.gap)
                 IN Clause("the chunks start where they should", o.starts = [k \in 1..Len(C) |-> C[k][1] - 1])
               \cup Clause("the chunks end where they should", o.ends = [k \in 1..Len(C) |-> C[k][2] - 1])
               \cup Clause("the months of the chunks are told", [k \in 1..Len(o.rows) |-> o.rows[k]] = [k \in 1..Len(C) |-> Row(v, h, C[k])])
               \cup Clause("the chunks are classed by their place", [k \in 1..Len(o.cls) |-> SetOf(o.cls[k])] = [k \in 1..Len(C) |-> Class(v.n, v.gap, C[k])])
               \cup Clause("looking changes nothing", o.again = 1)
(* ---- the driver *)
Two(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
Tag(v) == LET a == MonthNo(v.y, v.m, 1) b == MonthNo(v.y, v.m, v.n) IN ToString(a[1]) \o Two(a[2]) \o "-" \o ToString(b[1]) \o Two(b[2])
Wanted(v) == UNION {LET C == Chunks(v.ids[q].h, v.gap) IN
    {[id |-> v.ids[q].id, row |-> Row(v, v.ids[q].h, C[j]), cl |-> Class(v.n, v.gap, C[j])] :
       j \in {u \in 1..Len(C) : Selected(v.mode, Class(v.n, v.gap, C[u]))}} : q \in 1..Len(v.ids)}
IsJob(e) == e.e = "job"
Before(ev, k) == IF k = 1 THEN [e |-> "start", n |-> 0] ELSE ev[k - 1]
(* the newest look at the queue before event k *)
Newest(ev, k) == LET Q == {j \in 1..k - 1 : ev[j].e = "q"} IN IF Q = {} THEN 0 ELSE ev[LastOf(Q)].n
VRun(v, o) == LET J == {k \in 1..Len(o.ev) : IsJob(o.ev[k])}
                  As(k) == [id |-> o.ev[k].id, row |-> o.ev[k].row, cl |-> SetOf(o.ev[k].cl)]
              IN Clause("the driver runs", o.exc = 0)
            \cup Clause("every selected chunk is submitted", Wanted(v) \subseteq {As(k) : k \in J})
            \cup Clause("nothing but selected chunks is submitted", {As(k) : k \in J} \subseteq Wanted(v))
            \cup Clause("no chunk is submitted twice", \A a, b \in J : As(a) = As(b) => a = b)
            \cup Clause("a job is told its configuration and its run", \A k \in J : o.ev[k].tag = Tag(v) /\ o.ev[k].cfg = 1)
            \cup Clause("nothing is submitted while the queue is full", \A k \in J : Newest(o.ev, k) <= 250)
            \cup Clause("it looks at the queue between two jobs", \A a, b \in J : a < b => \E q \in a..b : o.ev[q].e = "q")
Verdict(r) == IF r.k = "chunks" THEN VChunks(r.in, r.out) ELSE VRun(r.in, r.out)
TInit == i = 1
TNext == i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
