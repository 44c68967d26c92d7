--------------------------- MODULE MC_ValueChecks ----------------------------
(* All combinations of small values, norms, deviations and limits.  The laws   *)
(* say what the checks are for, without repeating their definitions.           *)
EXTENDS ValueChecks, Sequences, TLC, Json
CONSTANTS N
VARIABLE v
Near == {NoVal} \cup {x - 4 : x \in 0..N}
MInit == v \in [v : Near, c : {NoVal, 0, 3}, sd : {NoVal, 2, 8, 12}, lim : {4, 12}, a : {0, 5}, b : {6, 10}]
MNext == UNCHANGED v
MSpec == MInit /\ [][MNext]_v
Emit == PrintT("BEH val " \o ToJson(v))
Flags(x) == <<Clim(x.v, x.c, x.lim), ClimStd(x.v, x.c, x.sd, 1, x.b, x.lim), ClimLow(x.v, x.c, x.sd, x.lim, x.a)>>
(* going further away never turns a failure into a pass *)
Monotone == v.v # NoVal /\ v.c # NoVal =>
   LET w == IF v.v >= v.c THEN [v EXCEPT !.v = @ + 1] ELSE [v EXCEPT !.v = @ - 1]
   IN \A k \in 1..3 : Flags(w)[k] >= Flags(v)[k]
Symmetric == v.v # NoVal /\ v.c # NoVal =>
   Flags([v EXCEPT !.v = 2 * v.c - v.v]) = Flags(v)
ShiftFree == v.v # NoVal /\ v.c # NoVal => Flags([v EXCEPT !.v = @ + 7, !.c = @ + 7]) = Flags(v)
MissingFails == (v.v = NoVal \/ v.c = NoVal) => Flags(v) = <<1, 1, 1>>
AtNormPasses == v.v = v.c /\ v.v # NoVal /\ v.sd # NoVal => Flags(v) = <<0, 0, 0>>
Interval == \A x \in Near \ {NoVal} : \A y \in Near \ {NoVal} :
   (HardLimit(x, v.a, v.b) = 0 /\ HardLimit(y, v.a, v.b) = 0) =>
      \A z \in (IF x < y THEN x..y ELSE y..x) : HardLimit(z, v.a, v.b) = 0
LowBarOnlyLoosens == v.v # NoVal /\ v.c # NoVal /\ v.sd # NoVal =>
   ClimLow(v.v, v.c, v.sd, v.lim, v.a) <= ClimLow(v.v, v.c, v.sd, v.lim, 0)
=============================================================================
