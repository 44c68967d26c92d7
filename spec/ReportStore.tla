----------------------------- MODULE ReportStore ------------------------------
(* What a report holds: its variables, its extra values, and the norms that    *)
(* were given to it.  Values are whole numbers of quarters; Missing is no      *)
(* value.  A refused operation changes nothing.                                *)
EXTENDS Integers, Sequences, FiniteSets
Missing == -99999
VARIABLES vars, ext, clim, refused
svars == <<vars, ext, clim, refused>>

Names == {"ID", "UID", "YR", "MO", "DY", "HR", "LAT", "LON", "DS", "VS", "SLP", "AT", "AT2", "SST", "DCK", "PT", "SID", "DPT",
          "SHU", "VAP", "CRH", "CWB", "DPD", "W", "WI", "D", "DI", "WW", "DAT"}
Put(f, n, v) == [k \in DOMAIN f \cup {n} |-> IF k = n THEN v ELSE f[k]]
Get(f, n) == IF n \in DOMAIN f THEN f[n] ELSE Missing
Restrict(f, S) == [k \in DOMAIN f \cap S |-> f[k]]

(* course in degrees and speed in knots from their codes, in quarters *)
Course(x) == IF Get(x, "DS") = Missing \/ Get(x, "DS") = 36 THEN Missing ELSE 45 * Get(x, "DS")
Speed(x) == LET c == Get(x, "VS") IN
            IF c = Missing THEN Missing ELSE IF c = 0 THEN 0
            ELSE IF Get(x, "YR") >= 4 * 1968 THEN 5 * c - 8 ELSE 3 * c - 4
Unpacked(x) == [k \in {"dsi", "vsi"} |-> IF k = "dsi" THEN Course(x) ELSE Speed(x)]

(* R[u]: the record that report u is made from *)
SInit(R) == /\ vars = [u \in DOMAIN R |-> Restrict(R[u], Names)]
            /\ ext = [u \in DOMAIN R |-> Unpacked(R[u])]
            /\ clim = [u \in DOMAIN R |-> <<>>]
            /\ refused = 0
SetVar(u, n, v) == IF n \in Names
                   THEN vars' = [vars EXCEPT ![u] = Put(@, n, v)] /\ refused' = 0 /\ UNCHANGED <<ext, clim>>
                   ELSE refused' = 1 /\ UNCHANGED <<vars, ext, clim>>
SetExt(u, n, v) == ext' = [ext EXCEPT ![u] = Put(@, n, v)] /\ refused' = 0 /\ UNCHANGED <<vars, clim>>
SetNorm(u, n, c, s) == clim' = [clim EXCEPT ![u] = Put(@, n, [clim |-> c, stdev |-> s])] /\ refused' = 0 /\ UNCHANGED <<vars, ext>>
(* one half of a norm that is there *)
SetHalf(u, n, h, v) ==
  IF n \in DOMAIN clim[u] /\ h \in {"clim", "stdev"}
  THEN clim' = [clim EXCEPT ![u][n][h] = v] /\ refused' = 0 /\ UNCHANGED <<vars, ext>>
  ELSE refused' = 1 /\ UNCHANGED <<vars, ext, clim>>
Reset(u) == ext' = [ext EXCEPT ![u] = Unpacked(vars[u])] /\ refused' = 0 /\ UNCHANGED <<vars, clim>>

(* what is read *)
Var(u, n) == IF n \in Names THEN Get(vars[u], n) ELSE Get(ext[u], n)
HasExt(u, n) == n \in DOMAIN ext[u]
Norm(u, n, h) == IF n \in DOMAIN clim[u] THEN clim[u][n][h] ELSE Missing
Anom(u, n) == IF Var(u, n) = Missing \/ Norm(u, n, "clim") = Missing THEN Missing ELSE Var(u, n) - Norm(u, n, "clim")
Saturated(u) == Var(u, "AT") # Missing /\ Var(u, "AT") = Var(u, "DPT")
Longitude(u) == IF Var(u, "LON") > 720 THEN Var(u, "LON") - 1440 ELSE Var(u, "LON")

(* laws *)
TypeOK == /\ \A u \in DOMAIN vars : DOMAIN vars[u] \subseteq Names
          /\ \A u \in DOMAIN ext : {"dsi", "vsi"} \subseteq DOMAIN ext[u]
AnomalyNeedsBoth == \A u \in DOMAIN vars : \A n \in DOMAIN clim[u] :
                      (Anom(u, n) # Missing) <=> (Var(u, n) # Missing /\ clim[u][n].clim # Missing)
=============================================================================
