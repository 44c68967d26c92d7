------------------------------ MODULE ClimField -------------------------------
(* A gridded climatology as a user sees it: a value for every cell and time    *)
(* slice, or none where it is masked; and a library of such fields.            *)
EXTENDS Calendar
G == INSTANCE Grid
NoVal == -99999
(* test field: distinct values, a few of them negative, one of them 0; a fixed  *)
(* pattern of masked cells                                                      *)
Value(t, y, x, ny) == (((t * ny + y) * 2 * ny + x) % 1000003) - 500
Masked(t, y, x) == (t + 2 * y + 3 * x) % 7 = 0
At(t, y, x, ny) == IF Masked(t, y, x) THEN NoVal ELSE Value(t, y, x, ny)
(* 29 February exists in a climatology (it shares a slice with 1 March) *)
RealDay(m, d) == m \in 1..12 /\ d >= 1 /\ d <= MLen(2004, m)
Slice(n, m, d) == CASE n = 1 -> 0 [] n = 73 -> Pentad(m, d) - 1 [] n = 365 -> ClimDay(m, d) - 1
(* library: a function from <<variable, statistic>> to a field *)
Put(lib, v, s, x) == [k \in DOMAIN lib \cup {<<v, s>>} |-> IF k = <<v, s>> THEN x ELSE lib[k]]
Get(lib, v, s) == IF <<v, s>> \in DOMAIN lib THEN lib[<<v, s>>] ELSE NoVal
=============================================================================
