------------------------------ MODULE T_Tracking -------------------------------
(* Recorded tracking runs against Tracking: what is put together, what each     *)
(* check is given, and what is written where.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceBase
VARIABLES i
T == INSTANCE Tracking WITH reps <- <<>>, d <- <<>>, step <- 0, seen <- <<>>
C == INSTANCE Calendar
NoV == -99999
Range(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Key(y, m) == y * 12 + m
(* the months of this drifter that are asked for, in order *)
Mine(v) == SelectSeq(v.months, LAMBDA x : x.id = v.id /\ Key(x.y, x.m) >= Key(v.y1, v.m1) /\ Key(x.y, x.m) <= Key(v.y2, v.m2))
Faulty(v) == \E x \in Range(Mine(v)) : x.fault[1] # ""
(* all reports of the record *)
Whole(v) == Cat([k \in 1..Len(Mine(v)) |-> LET x == Mine(v)[k] IN [j \in 1..Len(x.recs) |-> [r |-> x.recs[j], y |-> x.y, m |-> x.m]]])
Timed(x) == x.r.c.HR # NoV /\ x.r.c.DY # NoV /\ x.r.c.DY <= C!MLen(x.y, x.m)
(* hours are in units of a 120th *)
At(x) == (C!DayNumber(x.y, x.m, x.r.c.DY) - C!DayNumber(1998, 1, 1)) * 2880 + x.r.c.HR
Params(c) == CASE c = "aground" -> <<"new_buoy_aground_check">> [] c = "speed" -> <<"IQUAM_track_check", "new_buoy_speed_check">>
               [] c = "tail" -> <<"buoy_tail_check">> [] c = "bias" -> <<"buoy_bias_noise_check">>
(* the flags of the drifter checks after k checks *)
State(w, ev, k) == [u \in DOMAIN w |-> [n \in T!Drf |->
     LET J == {j \in 1..k : n \in T!Sets(T!Stages[j]) /\ u \in Range(ev[j].uids)} IN
     IF J = {} THEN 9 ELSE LET j == CHOOSE x \in J : TRUE p == CHOOSE q \in 1..Len(ev[j].uids) : ev[j].uids[q] = u IN ev[j].after[p][n]]]
InTime(w, us) == \A a, b \in 1..Len(us) : a < b /\ us[a] \in DOMAIN w /\ us[b] \in DOMAIN w /\ Timed(w[us[a]]) /\ Timed(w[us[b]]) => At(w[us[a]]) <= At(w[us[b]])
Shift(s) == LET k == s IN IF k < 10 THEN "0" \o ToString(k) ELSE ToString(k)
Dirs(v) == LET base == "TrackingQC/" \o ToString(v.y2) \o "/" \o Shift(v.m2) IN
  (IF Range(v.edge) \cap {"new", "regular"} # {} THEN {base} ELSE {}) \cup {base \o "/" \o e \o "_" \o v.runmonthid : e \in Range(v.edge) \cap {"start_edge_case", "end_edge_case"}}
Name(v) == "Tracking_" \o ToString(v.y2) \o Shift(v.m2) \o "_" \o v.safe \o "_run.csv"
Judge(v, o, w) ==
  LET ev == o.events N == Len(ev) IN
  Clause("the four drifter checks are run once each, in order, with their parameters", N = 4 /\ \A k \in 1..4 : k <= N => ev[k].fn = T!Stages[k] /\ ev[k].par = Params(T!Stages[k])) \cup
  (IF N # 4 \/ \E k \in 1..4 : ev[k].fn # T!Stages[k] THEN {} ELSE
   LET s == [k \in 0..4 |-> State(w, ev, k)]
       given(k) == {u \in DOMAIN w : T!Goes(T!Stages[k], w[u].r.fl, s[k - 1][u])} IN
   Clause("each check is given just the reports that passed what comes before it", \A k \in 1..4 : Range(ev[k].uids) = given(k) /\ Len(ev[k].uids) = Cardinality(given(k)))
     \cup Clause("each check is given the reports in order of time", \A k \in 1..4 : InTime(w, ev[k].uids))
     \cup Clause("each check decides about every report it is given", \A k \in 1..4 : \A q \in 1..Len(ev[k].uids) : \A n \in T!Sets(T!Stages[k]) : ev[k].after[q][n] \in {0, 1})
     \cup Clause("a check leaves the flags of earlier checks as they were", \A k \in 1..4 : \A q \in 1..Len(ev[k].uids) : \A j \in 1..(k - 1) : \A n \in T!Sets(T!Stages[j]) : ev[k].after[q][n] = s[k - 1][ev[k].uids[q]][n])
     \cup Clause("the flags written are those the checks gave, and 9 where a report was not given to a check", \A f \in Range(o.files) : \A x \in Range(f.recs) : x.uid \in DOMAIN w => x.d = s[4][x.uid])) \cup
  Clause("the record is written for each kind of edge asked for, in the directory of its last month, and nowhere else", Len(o.files) = Cardinality(Dirs(v)) /\ {f.dir : f \in Range(o.files)} = Dirs(v) /\ \A f \in Range(o.files) : f.name = Name(v))
    \cup Clause("every report of the months asked for is written once", \A f \in Range(o.files) : Len(f.recs) = Cardinality(DOMAIN w) /\ {f.recs[k].uid : k \in 1..Len(f.recs)} = DOMAIN w)
    \cup Clause("reports are written in order of time", \A f \in Range(o.files) : InTime(w, [k \in 1..Len(f.recs) |-> f.recs[k].uid]))
    \cup Clause("values are written as they were read", \A f \in Range(o.files) : \A x \in Range(f.recs) : x.uid \in DOMAIN w => LET y == w[x.uid] IN
            x.id = v.id /\ x.c.YR = y.y /\ x.c.MO = y.m /\ \A n \in DOMAIN y.r.c : x.c[n] = y.r.c[n])
    \cup Clause("flags are written as they were read", \A f \in Range(o.files) : \A x \in Range(f.recs) : x.uid \in DOMAIN w => \A n \in DOMAIN w[x.uid].r.fl : x.fl[n] = w[x.uid].r.fl[n])
RunV(v, o) ==
  LET all == Whole(v) IN
  IF Faulty(v) THEN Clause("files of a month that do not belong together are refused and nothing is written", o.raised = "UserWarning" /\ o.files = <<>>)
  ELSE IF all = <<>> THEN Clause("a drifter without reports is refused and nothing is written", o.raised = "UserWarning" /\ o.files = <<>>)
  ELSE Clause("a drifter with whole files is processed", o.raised = "") \cup
       (IF o.raised # "" THEN {} ELSE
        LET U == {all[k].r.uid : k \in 1..Len(all)} IN Judge(v, o, [u \in U |-> LET k == CHOOSE q \in 1..Len(all) : all[q].r.uid = u IN all[k]]))
Verdict(r) == CASE r.k = "track" -> RunV(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
===============================================================================
