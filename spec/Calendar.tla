------------------------------ MODULE Calendar -------------------------------
(* The Gregorian calendar by its definition: leap years, month lengths, and a *)
(* day number obtained by counting days from a fixed origin.                  *)
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MLen(y, m) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>[m]
(* days before month m in an ordinary year *)
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MLen(y, m)
DayOfYear(y, m, d) == CumDays[m] + d + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
(* number of leap years in 1..y *)
LeapsTo(y) == y \div 4 - y \div 100 + y \div 400
DayNumber(y, m, d) == 365 * (y - 1) + LeapsTo(y - 1) + DayOfYear(y, m, d)
NextDay(t) == IF t[3] < MLen(t[1], t[2]) THEN <<t[1], t[2], t[3] + 1>>
              ELSE IF t[2] < 12 THEN <<t[1], t[2] + 1, 1>> ELSE <<t[1] + 1, 1, 1>>
PrevDay(t) == IF t[3] > 1 THEN <<t[1], t[2], t[3] - 1>>
              ELSE IF t[2] > 1 THEN <<t[1], t[2] - 1, MLen(t[1], t[2] - 1)>> ELSE <<t[1] - 1, 12, 31>>
(* day of a 365-day year, where 29 February is the day of 1 March *)
ClimDay(m, d) == IF m = 2 /\ d = 29 THEN 60 ELSE CumDays[m] + d
Pentad(m, d) == (ClimDay(m, d) - 1) \div 5 + 1
=============================================================================
