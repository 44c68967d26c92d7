----------------------------- MODULE MC_TrackDriver -----------------------------
(* The tracking driver: it reads the identifier lists of the months, then         *)
(* submits the selected chunks one by one, looking at the queue after each and     *)
(* waiting while it holds more than 250 jobs.  The queue fills and drains.         *)
EXTENDS Chunks, TLC, Json
CONSTANTS MaxMonths, Ids, Gaps, Modes
VARIABLES lists, gap, mode, phase, todo, jobs, seen, n, full
vars == <<lists, gap, mode, phase, todo, jobs, seen, n, full>>
History(id) == [k \in 1..Len(lists) |-> IF id \in lists[k] THEN 1 ELSE 0]
Wanted == UNION {LET C == Chunks(History(id), gap) IN
            {<<id, C[j][1], C[j][2]>> : j \in {q \in 1..Len(C) : Selected(mode, Class(Len(lists), gap, C[q]))}} : id \in Ids}
Init == lists = <<>> /\ gap \in Gaps /\ mode \in Modes /\ phase = "read" /\ todo = {} /\ jobs = <<>> /\ seen = 0 /\ n = 0 /\ full = 0
Read == /\ phase = "read" /\ Len(lists) < MaxMonths
        /\ \E S \in SUBSET Ids : lists' = Append(lists, S)
        /\ UNCHANGED <<gap, mode, phase, todo, jobs, seen, n, full>>
Begin == /\ phase = "read" /\ Len(lists) > 0 /\ phase' = "submit" /\ todo' = Wanted
         /\ UNCHANGED <<lists, gap, mode, jobs, seen, n, full>>
(* load: the jobs of the user in the queue, here 250 or 251 *)
Submit == /\ phase = "submit" /\ todo # {}
          /\ \E j \in todo : jobs' = Append(jobs, j) /\ todo' = todo \ {j}
          /\ phase' = "look" /\ UNCHANGED <<lists, gap, mode, seen, n, full>>
Look == /\ phase = "look"
        /\ \E load \in IF full < 2 THEN {250, 251} ELSE {250} :      \* a full queue drains in the end
             seen' = load /\ full' = (IF load > 250 THEN full + 1 ELSE 0) /\ phase' = IF load > 250 THEN "wait" ELSE "submit"
        /\ UNCHANGED <<lists, gap, mode, todo, jobs, n>>
Wait == phase = "wait" /\ phase' = "look" /\ UNCHANGED <<lists, gap, mode, todo, jobs, seen, n, full>>
Done == phase = "submit" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<lists, gap, mode, todo, jobs, seen, n, full>>
Work == Begin \/ Submit \/ Look \/ Wait \/ Done
Next == Read \/ Work
CSpec == Init /\ [][Next]_vars /\ WF_vars(Work)
NeverTwice == \A a, b \in 1..Len(jobs) : jobs[a] = jobs[b] => a = b
NoneLost == phase = "done" => {jobs[k] : k \in 1..Len(jobs)} = Wanted
NothingElse == phase # "read" => {jobs[k] : k \in 1..Len(jobs)} \subseteq Wanted
NotIntoAFullQueue == [][Len(jobs') > Len(jobs) => seen <= 250]_vars
Finishes == phase = "submit" ~> phase = "done"
Emit == phase = "submit" /\ jobs = <<>> => PrintT("BEH run " \o ToJson([m |-> [k \in 1..Len(lists) |-> [id \in Ids |-> IF id \in lists[k] THEN 1 ELSE 0]], gap |-> gap, mode |-> mode]))
=============================================================================
