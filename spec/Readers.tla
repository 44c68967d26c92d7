------------------------------- MODULE Readers --------------------------------
(* The small record readers: an object that is given one line after another    *)
(* and shows the fields of the last line it accepted.  Numbers: hundredths      *)
(* (positions, temperatures), minutes (hours).  "nrt": comma separated near     *)
(* real time; "list": a row of values.                                          *)
EXTENDS Integers, Sequences, FiniteSets
Missing == -99999
VARIABLES shown, refused
Months31 == {1, 3, 5, 7, 8, 10, 12}
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLength(y, m) == IF m \in Months31 THEN 31 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 30
RealDate(l) == l.yr \in 1..9999 /\ l.mo \in 1..12 /\ l.dy >= 1 /\ l.dy <= MonthLength(l.yr, l.mo) /\ l.hr \in 0..23 /\ l.mi \in 0..59
Cap(x, top) == IF x > top THEN top ELSE x
(* l.cols: number of columns of the line, l.bad: 1 if one of the numbers is none *)
Accepts(kind, l) == IF kind = "nrt" THEN l.cols = 6 /\ l.bad = 0 /\ RealDate(l) ELSE l.cols >= 12 /\ l.bad = 0
Void == [id |-> Missing, yr |-> Missing, mo |-> Missing, dy |-> Missing, hr |-> Missing, lat |-> Missing, lon |-> Missing, sst |-> Missing,
         dck |-> Missing, pt |-> Missing, sid |-> Missing]
NoHour == -32768
FieldsOf(kind, l) ==
  IF kind = "nrt"
  THEN [id |-> l.id, yr |-> l.yr, mo |-> l.mo, dy |-> l.dy, hr |-> 60 * l.hr + l.mi, lat |-> Cap(l.lat, 20000), lon |-> Cap(l.lon, 40000),
        sst |-> l.sst, dck |-> 9999, pt |-> 7, sid |-> 9999]
  ELSE [id |-> l.id, yr |-> l.yr, mo |-> l.mo, dy |-> l.dy, hr |-> IF l.hr = Missing THEN Missing ELSE 60 * l.hr + l.mi, lat |-> l.lat, lon |-> l.lon,
        sst |-> l.sst, dck |-> 999, pt |-> Missing, sid |-> Missing]
RInit == shown = Void /\ refused = 0
Read(kind, l) == IF Accepts(kind, l) THEN shown' = FieldsOf(kind, l) /\ refused' = 0
                 ELSE shown' = shown /\ refused' = 1
EndOfFile == UNCHANGED shown /\ refused' = 0
=============================================================================
