------------------------------- MODULE MC_Repeats -----------------------------
(* All short voyages of saturated and unsaturated reports; all short lists of   *)
(* values.                                                                      *)
EXTENDS Repeats, TLC, Json
CONSTANTS Len0
P == [short |-> 2, time |-> 48]
Times == {[k \in 1..Len0 |-> 24 * (k - 1)], [k \in 1..Len0 |-> 12 * (k - 1)], [k \in 1..Len0 |-> IF k < 4 THEN 10 * k ELSE 60 + k]}
VARIABLE vals
mv == <<w, t, pos, run, hit, vals>>
MInit == \E ww \in [1..Len0 -> BOOLEAN], tt \in Times, vv \in [1..5 -> {No, 40, 41, 80}] :
           /\ (ww # [k \in 1..Len0 |-> TRUE]) => vv = <<40, 40, 40, 40, 40>>
           /\ WInit(ww, tt) /\ vals = vv
MNext == Walk(P) /\ UNCHANGED vals
MSpec == MInit /\ [][MNext]_mv
SameAsDefinition == pos > Len0 => hit = Saturated(w, t, P)
OnlySaturated == \A k \in hit : w[k]
Q(n) == [min |-> 3, num |-> n, den |-> 4]
(* shares above a half leave at most one value *)
AtMostOne == LET R == Repeated(vals, Q(2)) IN \A a, b \in R : vals[a] = vals[b]
Missing == (Repeated(vals, Q(0)) \cup Rounded(vals, Q(0))) \cap {k \in 1..5 : vals[k] = No} = {}
Lower == Repeated(vals, Q(3)) \subseteq Repeated(vals, Q(1)) /\ Rounded(vals, Q(3)) \subseteq Rounded(vals, Q(1))
All == Repeated(vals, Q(4)) = {}
Emit == pos = 0 => IF w = [k \in 1..Len0 |-> TRUE] /\ t = [k \in 1..Len0 |-> 24 * (k - 1)] THEN PrintT("BEH vals " \o ToJson(vals))
                   ELSE IF vals = <<40, 40, 40, 40, 40>> THEN PrintT("BEH sat " \o ToJson([w |-> [k \in 1..Len0 |-> IF w[k] THEN 1 ELSE 0], t |-> t])) ELSE TRUE
===============================================================================
