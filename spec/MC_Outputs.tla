----------------------------- MODULE MC_Outputs ------------------------------
(* A collection that grows, is flagged and written out, month by month.        *)
EXTENDS Outputs, Json
CONSTANTS MaxOps, Months
MCMonths == {<<1999, 12>>, <<2000, 1>>}
VARIABLES h, last
vars == <<reps, flags, files, h, last>>
Nothing == [y |-> 0, m |-> 0, test |-> FALSE]
MoOf(u) == IF u \in {1, 3} THEN <<1999, 12>> ELSE <<2000, 1>>
Log(o) == h' = Append(h, o)
Init == OInit /\ h = <<>> /\ last = Nothing
DoAdd == /\ Len(reps) < 4 /\ Add(Len(reps) + 1)
         /\ Log([op |-> "add", u |-> Len(reps) + 1]) /\ last' = Nothing
DoFlag == \E u \in {reps[i] : i \in DOMAIN reps}, v \in {0, 1} :
            SetFlag(u, "POS", "day", v) /\ Log([op |-> "flag", u |-> u, v |-> v]) /\ last' = Nothing
DoWrite == \E m \in Months, test \in BOOLEAN :
             /\ reps # <<>>
             /\ Write({"", "POS", "SST"}, OfMonth(reps, MoOf, m[1], m[2]), m[1], m[2], "", "run", test)
             /\ Log([op |-> "write", y |-> m[1], m |-> m[2], test |-> test]) /\ last' = [y |-> m[1], m |-> m[2], test |-> test]
Next == Len(h) < MaxOps /\ (DoAdd \/ DoFlag \/ DoWrite)
Spec == Init /\ [][Next]_vars
Written(g) == files[FileName(g, last.y, last.m, "", "run", last.test)]
Wrote == last # Nothing
(* all files of a write hold the same reports in the same order: those of the month, each once *)
Aligned == Wrote => \A g \in {"POS", "SST"} : Written(g).rows = Written("").rows
Complete == Wrote => /\ {Written("").rows[i] : i \in DOMAIN Written("").rows} = {u \in {reps[i] : i \in DOMAIN reps} : MoOf(u) = <<last.y, last.m>>}
                     /\ NoRepeats(Written("").rows)
InOrder == Wrote => \A i, j \in DOMAIN Written("").rows : i < j =>
             \E a, b \in DOMAIN reps : a < b /\ reps[a] = Written("").rows[i] /\ reps[b] = Written("").rows[j]
Current == Wrote => Written("POS").flags = flags
(* a write touches no file of another month, nor of the other kind *)
Untouched == [][\A f \in DOMAIN files :
                  ((last' = Nothing) \/ \A g \in {"", "POS", "SST"} : f # FileName(g, last'.y, last'.m, "", "run", last'.test))
                  => f \in DOMAIN files' /\ files'[f] = files[f]]_vars
(* no two kinds of output share a name *)
Distinct == \A a, b \in {"", "POS", "SST", "TRACK"}, m, n \in Months, s, t \in BOOLEAN :
              FileName(a, m[1], m[2], "", "run", s) = FileName(b, n[1], n[2], "", "run", t) => a = b /\ m = n /\ s = t
Emit == (Len(h) = MaxOps /\ Wrote) => PrintT("BEH history " \o ToJson(h))
=============================================================================
