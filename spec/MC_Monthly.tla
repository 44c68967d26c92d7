------------------------------ MODULE MC_Monthly ------------------------------
EXTENDS Monthly, TLC
CONSTANTS LAST, MAXREC
VARIABLES arch
Bad == {"x"}
El(x) == x.el
(* months 0 .. LAST + 1 hold lines; 1 .. LAST are run *)
Kinds == {<<ok, id, d, el>> \in BOOLEAN \X {"a", "x"} \X {0, 1} \X BOOLEAN : (~ok => id = "a" /\ d = 0 /\ el) /\ (d = 1 => el /\ id = "a")}
Files == UNION {[1..n -> Kinds] : n \in 0..MAXREC}
Mk(t, f) == [k \in 1..Len(f) |-> [uid |-> <<t, k>>, ok |-> f[k][1], id |-> f[k][2], m |-> t + f[k][3], el |-> f[k][4]]]
Init == \E a \in [0..(LAST + 1) -> Files] : arch = [t \in 0..(LAST + 1) |-> Mk(t, a[t])] /\ MInit(arch, 1)
Next == (ReadLine(Bad) \/ TrackCheck(El) \/ Write \/ NextMonth(arch, LAST)) /\ UNCHANGED arch
Spec == Init /\ [][Next]_<<mvars, arch>>
(* what is written for a month is its own reports, each once, whatever was run before *)
OwnReports == \A t \in DOMAIN out : out[t].rows = Written(arch, t, Bad)
Once == \A t \in DOMAIN out : \A a, b \in 1..Len(out[t].rows) : out[t].rows[a] = out[t].rows[b] => a = b
Disjoint == \A s, t \in DOMAIN out : s # t => {out[s].rows[k] : k \in 1..Len(out[s].rows)} \cap {out[t].rows[k] : k \in 1..Len(out[t].rows)} = {}
(* voyages do not depend on history either, and hold every eligible report of the three months *)
WholeVoyages == \A t \in DOMAIN out : out[t].tracked = Voyages(Held(arch, t, Bad), El)
AllMonths == stage = "next" /\ month = LAST => DOMAIN out = 1..LAST
NoneExcluded == \A k \in 1..Len(held) : held[k].l.id \notin Bad /\ held[k].l.ok
=============================================================================
