-------------------------------- MODULE Repeats -------------------------------
(* Values repeated along a voyage, whole values, and runs of saturated air.     *)
(* Values in 1/40, No if missing; times in minutes; shares as num / den.     *)
EXTENDS Integers, Sequences, FiniteSets
No == -99999
Present(s) == {k \in 1..Len(s) : s[k] # No}
Same(s, x) == {k \in 1..Len(s) : s[k] = x}
Repeated(s, p) == IF Cardinality(Present(s)) <= p.min THEN {}
                  ELSE {k \in Present(s) : Cardinality(Same(s, s[k])) * p.den > p.num * Cardinality(Present(s))}
Whole(s) == {k \in Present(s) : s[k] % 40 = 0}
Rounded(s, p) == IF Cardinality(Present(s)) <= p.min THEN {}
                 ELSE IF Cardinality(Whole(s)) * p.den >= p.num * Cardinality(Present(s)) THEN Whole(s) ELSE {}
(* saturated: w[k] true; t the times *)
Run(w, a, b) == a <= b /\ (\A k \in a..b : w[k]) /\ (a = 1 \/ ~w[a - 1]) /\ (b = Len(w) \/ ~w[b + 1])
Saturated(w, t, p) == {k \in 1..Len(w) : \E a \in 1..k : \E b \in k..Len(w) :
                         Run(w, a, b) /\ b - a + 1 > p.short /\ t[b] - t[a] >= p.time}
(* the same as a walk along the voyage *)
VARIABLES w, t, pos, run, hit
WInit(ww, tt) == w = ww /\ t = tt /\ pos = 0 /\ run = <<>> /\ hit = {}
Close(r, p) == IF Len(r) > p.short /\ t[r[Len(r)]] - t[r[1]] >= p.time THEN {r[k] : k \in 1..Len(r)} ELSE {}
Walk(p) == \/ pos < Len(w) /\ pos' = pos + 1 /\ UNCHANGED <<w, t>>
              /\ IF w[pos + 1] THEN run' = Append(run, pos + 1) /\ UNCHANGED hit ELSE run' = <<>> /\ hit' = hit \cup Close(run, p)
           \/ pos = Len(w) /\ pos' = pos + 1 /\ run' = <<>> /\ hit' = hit \cup Close(run, p) /\ UNCHANGED <<w, t>>
===============================================================================
