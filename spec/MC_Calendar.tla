----------------------------- MODULE MC_Calendar -----------------------------
(* The calendar as a clock that steps one day at a time: the closed formulas   *)
(* used elsewhere are checked against stepping.                                 *)
EXTENDS Calendar, TLC, Json
CONSTANTS FirstYear, LastYear
VARIABLES today, n, doy
cvars == <<today, n, doy>>
CInit == today = <<FirstYear, 1, 1>> /\ n = DayNumber(FirstYear, 1, 1) /\ doy = 1
Tick == /\ today # <<LastYear, 12, 31>>
        /\ today' = NextDay(today) /\ n' = n + 1
        /\ doy' = IF today'[2] = 1 /\ today'[3] = 1 THEN 1 ELSE doy + 1
CSpec == CInit /\ [][Tick]_cvars
NumbersFollow == n = DayNumber(today[1], today[2], today[3])
DayOfYearFollows == doy = DayOfYear(today[1], today[2], today[3])
Real == ValidDate(today[1], today[2], today[3])
BackAgain == [][PrevDay(today') = today]_cvars
PentadInRange == Pentad(today[2], today[3]) \in 1..73
(* pentads advance by at most one, never back within a year *)
PentadSteps == [][today'[1] = today[1] => LET a == Pentad(today[2], today[3])
                                              b == Pentad(today'[2], today'[3]) IN b \in {a, a + 1}]_cvars
=============================================================================
