------------------------------ MODULE Humidity ------------------------------
(* Humidity of the air from dew point td and temperature t (tenths of a        *)
(* degree) and pressure p (tenths of hPa).  Pressures of vapour are in         *)
(* millionths of hPa.                                                          *)
EXTENDS VapourTable, Sequences
(* a * b \div c without overflow, for c up to 300 million *)
RECURSIVE LongDiv(_, _, _)
LongDiv(r, b, c) == IF b = 0 THEN <<0, 0>>
                    ELSE CHOOSE z \in {<<y[1] * 4 + y[2] \div c, y[2] % c>> :
                                       y \in {<<h[1], h[2] * 4 + r * (b % 4)>> : h \in {LongDiv(r, b \div 4, c)}}} : TRUE
MulDiv(a, b, c) == (a \div c) * b + LongDiv(a % c, b, c)[1]
(* over water and over ice, enhanced *)
OverWater(t, p) == Water(t) + MulDiv(Water(t), (700000 + 346 * p) \div 10, 100000000)
OverIce(t, p) == Ice(t) + MulDiv(Ice(t), (300000 + 418 * p) \div 10, 100000000)
(* wet bulb in thousandths of a degree of air with vapour pressure e *)
Bulb(e, td, t, p) ==
  LET a == 660 * p
      b == MulDiv(e, 4098000, (td + 2373) * (td + 2373))
  IN IF t >= td THEN td * 100 + MulDiv((t - td) * 100, a, a + b)
     ELSE td * 100 - MulDiv((td - t) * 100, a, a + b)
(* the wet bulb that decides between water and ice *)
Pseudo(td, t, p) == Bulb(OverWater(td, p), td, t, p)
Frozen(td, t, p) == Pseudo(td, t, p) <= 0
(* quantities of air, over ice or over water *)
Vap(td, p, ice) == IF ice THEN OverIce(td, p) ELSE OverWater(td, p)
Sat(t, p) == Vap(t, p, t <= 0)                       \* saturated, where the wet bulb is the temperature
Rel(td, t, p, ice) == MulDiv(Vap(td, p, ice), 1000000, Sat(t, p))      \* 1/10000 percent
Spec(e, p) == MulDiv(e, 622000, p * 10000 - MulDiv(e, 378, 10000))     \* 1/10000 g per kg
Wet(td, t, p, ice) == Bulb(Vap(td, p, ice), td, t, p)
Depression(td, t) == t - td
(* a report: none of its five quantities, if an input is missing or the relative humidity is silly *)
Silly(r) == r < 0 \/ r > 1500000
=============================================================================
