------------------------------- MODULE Monthly --------------------------------
(* A run of the monthly programs over a range of months.                        *)
(* Months are numbered 12 * year + month - 1.  The archive gives for a month a  *)
(* sequence of lines [uid, ok, id, m]: readable or not, identifier, the month   *)
(* the report says it is of.  State: the month under way, the lines still to    *)
(* be read, the reports held, the stage, and what has been written.             *)
EXTENDS Integers, Sequences, FiniteSets
Key(y, m) == 12 * y + m - 1
Near(t) == <<t - 1, t, t + 1>>                       \* the months read, in order
Kept(x, file, bad) == x.ok /\ x.m = file /\ x.id \notin bad
(* the reports held once the three months are read, in reading order *)
Lines(arch, t) == arch[t - 1] \o arch[t] \o arch[t + 1]
Stamp(arch, t) == [k \in 1..Len(arch[t]) |-> [l |-> arch[t][k], file |-> t]]
Held(arch, t, bad) == LET s == Stamp(arch, t - 1) \o Stamp(arch, t) \o Stamp(arch, t + 1)
                      IN SelectSeq(s, LAMBDA x : Kept(x.l, x.file, bad))
Written(arch, t, bad) == LET s == SelectSeq(Stamp(arch, t), LAMBDA x : Kept(x.l, x.file, bad)) IN [k \in 1..Len(s) |-> s[k].l.uid]
(* a voyage: the eligible reports of one platform, whatever month they are of *)
Voyages(h, el(_)) == {S \in {{h[k].l.uid : k \in {q \in 1..Len(h) : h[q].l.id = i /\ el(h[q].l)}} : i \in {h[q].l.id : q \in 1..Len(h)}} : S # {}}

VARIABLES month, todo, held, stage, tracked, out
mvars == <<month, todo, held, stage, tracked, out>>
MInit(arch, t) == month = t /\ todo = Stamp(arch, t - 1) \o Stamp(arch, t) \o Stamp(arch, t + 1) /\ held = <<>> /\ stage = "read" /\ tracked = {} /\ out = <<>>
ReadLine(bad) == /\ stage = "read" /\ todo # <<>>
                 /\ held' = IF Kept(Head(todo).l, Head(todo).file, bad) THEN Append(held, Head(todo)) ELSE held
                 /\ todo' = Tail(todo) /\ UNCHANGED <<month, stage, tracked, out>>
TrackCheck(el(_)) == /\ stage = "read" /\ todo = <<>>
                     /\ tracked' = Voyages(held, el) /\ stage' = "write" /\ UNCHANGED <<month, todo, held, out>>
Put(t, s) == [d \in DOMAIN out \cup {t} |-> IF d = t THEN s ELSE out[d]]
Write == /\ stage = "write"
         /\ LET s == SelectSeq(held, LAMBDA x : x.l.m = month)
            IN out' = Put(month, [rows |-> [k \in 1..Len(s) |-> s[k].l.uid], tracked |-> tracked])
         /\ stage' = "next" /\ UNCHANGED <<month, todo, held, tracked>>
NextMonth(arch, last) == /\ stage = "next" /\ month < last
                         /\ month' = month + 1 /\ stage' = "read" /\ held' = <<>> /\ tracked' = {}
                         /\ todo' = Stamp(arch, month) \o Stamp(arch, month + 1) \o Stamp(arch, month + 2) /\ UNCHANGED out
=============================================================================
