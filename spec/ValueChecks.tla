----------------------------- MODULE ValueChecks -----------------------------
(* The checks of a single value against its limits.  All quantities are whole *)
(* multiples of 1/S; NoVal is a missing one.  1 = fail, 0 = pass.              *)
EXTENDS Integers
NoVal == -99999
S == 8
B(x) == IF x THEN 1 ELSE 0
Dist(a, b) == IF a >= b THEN a - b ELSE b - a
NoValue(v) == B(v = NoVal)
NoNorm(c) == B(c = NoVal)
HardLimit(v, lo, hi) == B(v = NoVal \/ v < lo \/ v > hi)
Clim(v, c, lim) == B(v = NoVal \/ c = NoVal \/ Dist(v, c) > lim)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* standardised: distance / deviation > lim *)
Beyond(v, c, sd, lim) == S * Dist(v, c) > lim * sd
ClimStd(v, c, sd, lo, hi, lim) ==
   B(v = NoVal \/ c = NoVal \/ sd = NoVal \/ Beyond(v, c, Clamp(sd, lo, hi), lim))
ClimLow(v, c, sd, lim, low) ==
   B(v = NoVal \/ c = NoVal \/ sd = NoVal \/ (Beyond(v, c, sd, lim) /\ Dist(v, c) > low))
SuperSat(td, t) == B(td = NoVal \/ t = NoVal \/ td > t)
Freeze(v, unc, fp, n) == B(v # NoVal /\ S * v < S * fp - n * unc)
WindFlag(w, d, lim) == B((d = 361 /\ w # 0) \/ (d = 362 /\ w # NoVal /\ w > lim))
=============================================================================
