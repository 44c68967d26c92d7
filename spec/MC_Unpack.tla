----------------------------- MODULE MC_Unpack -------------------------------
EXTENDS Unpack, Json
CONSTANTS MaxActs
VARIABLES h
vars == <<scratch, pc, mine, got, h>>
Init == UInit /\ h = <<>>
Act(a, p) == h' = Append(h, [a |-> a, p |-> p])
Next == /\ Len(h) < MaxActs
        /\ \E p \in Programs : \/ Start(p) /\ Act("start", p)
                               \/ Finish(p) /\ Act("finish", p)
                               \/ Fail(p) /\ Act("fail", p)
                               \/ Kill(p) /\ Act("kill", p)
Spec == Init /\ [][Next]_vars
(* a program never gets a part of a field *)
NoPart == \A p \in Programs : got[p] # "part"
WholeOnly == scratch \in {"absent", "whole"}
(* once whole, it stays *)
Stays == [][scratch = "whole" => scratch' = "whole"]_vars
(* only what a killed program leaves is left over *)
Leftover == \A p \in Programs : (mine[p] # "absent" /\ pc[p] = "idle") => \E k \in DOMAIN h : h[k] = [a |-> "kill", p |-> p]
Emit == (Len(h) = MaxActs) => PrintT("BEH race " \o ToJson(h))
=============================================================================
