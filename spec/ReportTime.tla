----------------------------- MODULE ReportTime ------------------------------
(* The date-time of a report as a function of its fields, under any sequence  *)
(* of field updates.  The hour is in 12000ths so that it can lie anywhere     *)
(* between two minutes; missing is NoVal.                                      *)
EXTENDS Calendar
NoVal == -99999
VARIABLES fields,    \* [YR, MO, DY, HR |-> value]
          dt         \* <<>> or <<y, m, d, h, min>>
rvars == <<fields, dt>>
Names == {"YR", "MO", "DY", "HR"}
Has(f) == \A n \in Names : f[n] # NoVal
RealDate(f) == f["YR"] \in 1..9999 /\ ValidDate(f["YR"], f["MO"], f["DY"])
RealHour(f) == f["HR"] >= 0 /\ f["HR"] < 288000
DtOf(f) == IF Has(f) /\ RealDate(f) /\ RealHour(f)
           THEN <<f["YR"], f["MO"], f["DY"], f["HR"] \div 12000, (f["HR"] % 12000) \div 200>>
           ELSE <<>>
RInit(f) == fields = f /\ dt = DtOf(f)
SetField(n, v) == /\ fields' = [fields EXCEPT ![n] = v]
                  /\ dt' = DtOf(fields')
(* order of two reports with identifiers a, b and times p, q *)
DayOf(p) == DayNumber(p[1], p[2], p[3])
MinuteOf(p) == p[4] * 60 + p[5]
Earlier(p, q) == DayOf(p) < DayOf(q) \/ (DayOf(p) = DayOf(q) /\ MinuteOf(p) < MinuteOf(q))
(* reports without a time come before the others of their platform, so that sorting orders all those with one *)
Before(a, p, b, q) == a < b \/ (a = b /\ q # <<>> /\ (p = <<>> \/ Earlier(p, q)))
Same(a, p, b, q) == a = b /\ p = q
DtConsistent == dt = DtOf(fields)
DtReal == dt # <<>> => ValidDate(dt[1], dt[2], dt[3]) /\ dt[4] \in 0..23 /\ dt[5] \in 0..59
=============================================================================
