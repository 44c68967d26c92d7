----------------------------- MODULE T_Calendar ------------------------------
EXTENDS Calendar, TraceBase
VARIABLE i
B(x) == IF x THEN 1 ELSE 0
SeasonOf(m) == IF m \in {12, 1, 2} THEN "DJF" ELSE IF m \in 3..5 THEN "MAM" ELSE IF m \in 6..8 THEN "JJA"
               ELSE IF m \in 9..11 THEN "SON" ELSE "none"
(* the month k months after <<y, m>> *)
MonthAfter(y, m, k) == LET t == 12 * y + (m - 1) + k IN <<t \div 12, (t % 12) + 1>>
PentadStart(p) ==    \* the first day of pentad p, in an ordinary year
  LET dd == 5 * (p - 1) + 1
      mm == CHOOSE m \in 1..12 : CumDays[m] < dd /\ (m = 12 \/ dd <= CumDays[m + 1])
  IN <<mm, dd - CumDays[mm]>>
Nil == <<-99999, -99999, -99999>>
VMonth(v, o) ==      \* one month of one year, all days
  LET y == v.y
      m == v.m
      days == 1..MLen(y, m)
  IN Clause("month length", o.mlen = [k \in 1..12 |-> MLen(y, k)])
  \cup Clause("day of year", Len(o.doy) = MLen(y, m) /\ \A d \in days : o.doy[d] = DayOfYear(y, m, d))
  \cup Clause("climatological day", \A d \in days : o.cday[d] = ClimDay(m, d))
  \cup Clause("pentad", \A d \in days : o.pen[d] = Pentad(m, d))
  \cup Clause("previous day", \A d \in days : o.yes[d] = PrevDay(<<y, m, d>>))
  \cup Clause("no previous day of a day that does not exist", o.yesbad = Nil)
  \cup Clause("julian day numbers follow the calendar", \A d \in days : o.jul[d] = DayNumber(y, m, d) + 1721425)
  \cup Clause("season", o.season = SeasonOf(m))
  \cup Clause("neighbouring months", o.prev = MonthAfter(y, m, -1) /\ o.next = MonthAfter(y, m, 1))
VPentad(v, o) ==
     Clause("first day of a pentad", <<o.m, o.d>> = PentadStart(v.p))
  \cup Clause("pentad of its first day", o.back = v.p)
VMonths(v, o) ==
  LET n == 12 * (v.y2 - v.y1) + v.m2 - v.m1 + 1
  IN Clause("every month of the interval once, in order, and none when it ends before it starts",
            o.seq = [k \in 1..n |-> MonthAfter(v.y1, v.m1, k - 1)])
VDiff(v, o) ==
  LET a == v.a
      b == v.b
      unknown == a[4] = None \/ b[4] = None
      dd == DayNumber(b[1], b[2], b[3]) - DayNumber(a[1], a[2], a[3])
      ex == dd * 1440 + (b[4] - a[4])
  IN Clause("unknown exactly when an hour is", unknown <=> o.t = None)
  \cup Clause("exact difference in time", ~unknown => o.t = ex /\ o.off = 0)
  \cup Clause("antisymmetric", ~unknown => o.r = -ex)
VMatch(v, o) == Clause("month match", o.x = B(v.y1 = v.y2 /\ v.m1 = v.m2))
VSeason(v, o) == Clause("season", o.s = SeasonOf(v.m))
Verdict(r) == CASE r.k = "month" -> VMonth(r.in, r.out)
                [] r.k = "pentad" -> VPentad(r.in, r.out)
                [] r.k = "months" -> VMonths(r.in, r.out)
                [] r.k = "diff" -> VDiff(r.in, r.out)
                [] r.k = "match" -> VMatch(r.in, r.out)
                [] r.k = "season" -> VSeason(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
