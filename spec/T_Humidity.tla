----------------------------- MODULE T_Humidity -----------------------------
EXTENDS Humidity, TraceBase
VARIABLE i
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, e) == Abs(a - b) <= e
(* which of water and ice: within a hundredth of a degree of freezing either *)
Phases(td, t, p) == LET w == Pseudo(td, t, p) IN (IF w <= 10 THEN {TRUE} ELSE {}) \cup (IF w > -10 THEN {FALSE} ELSE {})
VapOK(o, td, p, ice) == LET e == Vap(td, p, ice) IN Near(o, e, 5 + e \div 100000)
RelOK(o, td, t, p, ice) ==
  LET r == Rel(td, t, p, ice)
  IN Near(o, r, 5 + r \div 100000 + (2 * (r + 1000000)) \div Sat(t, p))
ShOK(o, td, p, ice) == LET q == Spec(Vap(td, p, ice), p) IN Near(o, q, 2 + q \div 50000)
WetOK(o, td, t, p, ice) == Near(o, Wet(td, t, p, ice), 10)
(* the tenth that a finer value is rounded to (unit: of the finer value in a tenth) *)
Tenth(o, x, unit) == IF o \in {None, Exc, NaN} THEN FALSE ELSE 2 * Abs(o * unit - x) <= unit + 4
VAir(v, o) ==
  LET ph == Phases(v.td, v.t, v.p) IN
  Clause("vapour pressure, specific and relative humidity and wet bulb over the proper phase",
         \E ice \in ph : /\ VapOK(o.vap, v.td, v.p, ice) /\ ShOK(o.sh, v.td, v.p, ice)
                         /\ RelOK(o.rh, v.td, v.t, v.p, ice) /\ WetOK(o.wb, v.td, v.t, v.p, ice))
  \cup Clause("dew point depression", Near(o.dpd, (v.t - v.td) * 100, 0))
  \cup Clause("saturated air has a relative humidity of 100 percent", v.td = v.t => o.rh = 1000000)
  \cup Clause("rounded to a tenth", /\ Tenth(o.vap1, o.vap, 100000) /\ Tenth(o.sh1, o.sh, 1000) /\ Tenth(o.rh1, o.rh, 1000)
                                    /\ Tenth(o.wb1, o.wb, 100) /\ o.dpd1 = v.t - v.td)
  \cup Clause("specific humidity to vapour pressure and back", Near(o.vap2, o.vap, 2 + o.vap \div 1000000) /\ Near(o.sh2, o.sh, 1))
  \cup Clause("inverse conversions are rounded to a tenth", Tenth(o.vap3, o.vap, 100000) /\ Tenth(o.sh3, o.sh, 1000))
  \cup Clause("vapour pressure back to dew point (but not of air above freezing over ice)",
              (ph = {FALSE} \/ (v.t <= 0 /\ v.td < 0)) => Near(o.td, v.td * 100, 1) /\ o.td1 = v.td)
VMissing(v, o) ==
  LET any == None \in {v.td, v.t, v.p}
  IN Clause("generator: something is missing", any)
  \cup Clause("missing exactly where an input is missing", o.vap = None /\ o.sh = None /\ o.rh = None /\ o.wb = None
              /\ (o.dpd = None) = (None \in {v.td, v.t}))
Five(o) == {o.SHU, o.VAP, o.CRH, o.CWB, o.DPD}
VReport(v, o) ==
  IF None \in {v.td, v.t, v.p}
  THEN Clause("no pressure norm, temperature or dew point: no derived quantity", Five(o) = {None})
  ELSE LET ph == Phases(v.td, v.t, v.p)
           sure(b) == \A ice \in ph : LET r == Rel(v.td, v.t, v.p, ice) IN IF b THEN r > 1500600 ELSE r < 1500400
       IN Clause("all present or all missing", Five(o) = {None} \/ None \notin Five(o))
       \cup Clause("missing exactly where the relative humidity is silly",
                   (sure(TRUE) => Five(o) = {None}) /\ (sure(FALSE) => None \notin Five(o)))
       \cup Clause("the quantities of the report's air",
                   Five(o) # {None} => \E ice \in ph :
                     /\ Near(o.VAP * 100000, Vap(v.td, v.p, ice), 50005 + o.VAP) /\ Near(o.SHU * 1000, Spec(Vap(v.td, v.p, ice), v.p), 505 + o.SHU \div 50)
                     /\ Near(o.CRH * 1000, Rel(v.td, v.t, v.p, ice), 505 + o.CRH \div 10 + 3000000 \div Sat(v.t, v.p))
                     /\ Near(o.CWB * 100, Wet(v.td, v.t, v.p, ice), 60) /\ o.DPD = v.t - v.td)
VRefuse(v, o) == Clause("an unknown variable is refused", o.r = Exc)
Verdict(r) == CASE r.k = "air" -> VAir(r.in, r.out)
                     [] r.k = "missing" -> VMissing(r.in, r.out)
                     [] r.k = "report" -> VReport(r.in, r.out)
                     [] r.k = "refuse" -> VRefuse(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
