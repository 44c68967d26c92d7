------------------------------- MODULE Tracking --------------------------------
(* A tracking run: the monthly records of one drifter are put together, and    *)
(* four checks follow each other, each on the reports that passed what came     *)
(* before.  Flags: name -> value, 9 if not set.                                 *)
EXTENDS Integers, Sequences, FiniteSets
Stages == <<"aground", "speed", "tail", "bias">>
Sets(c) == CASE c = "aground" -> {"drf_agr"} [] c = "speed" -> {"drf_spd"} [] c = "tail" -> {"drf_tail1", "drf_tail2"}
             [] c = "bias" -> {"drf_bias", "drf_noise", "drf_short"}
Drf == UNION {Sets(c) : c \in {Stages[k] : k \in 1..4}}
(* what a report has to have passed; fl: the flags of the report *)
Place(fl) == fl.isbuoy = 1 /\ fl.date = 0 /\ fl.time = 0 /\ fl.pos = 0 /\ fl.blklst = 0
Sst(fl) == fl.clim = 0 /\ fl.nonorm = 0 /\ fl.freez = 0 /\ fl.noval = 0 /\ fl.rep = 0 /\ fl.hardlimit = 0 /\ fl.bbud < 4
Goes(c, fl, d) == CASE c \in {"aground", "speed"} -> Place(fl)
                    [] c = "tail" -> Place(fl) /\ Sst(fl) /\ d.drf_agr = 0 /\ d.drf_spd = 0
                    [] c = "bias" -> Place(fl) /\ Sst(fl) /\ d.drf_agr = 0 /\ d.drf_spd = 0 /\ d.drf_tail1 = 0 /\ d.drf_tail2 = 0
VARIABLES reps,     \* the record: number of the report -> flags before the run
          d,        \* number -> flags of the drifter checks
          step,     \* checks done
          seen      \* check -> reports it was given
tvars == <<reps, d, step, seen>>
Unset == [n \in Drf |-> 9]
TrInit(s) == reps = s /\ d = [k \in DOMAIN s |-> Unset] /\ step = 0 /\ seen = [c \in {Stages[k] : k \in 1..4} |-> {}]
Given(c) == {k \in DOMAIN reps : Goes(c, reps[k], d[k])}
(* a check may find anything, but only about the reports it was given, and about each of them *)
Check == /\ step < 4
         /\ LET c == Stages[step + 1] S == Given(c) IN
            /\ seen' = [seen EXCEPT ![c] = S]
            /\ \E o \in [S -> [Sets(c) -> {0, 1}]] : d' = [k \in DOMAIN reps |-> [n \in Drf |-> IF k \in S /\ n \in Sets(c) THEN o[k][n] ELSE d[k][n]]]
         /\ step' = step + 1 /\ UNCHANGED reps
=============================================================================
