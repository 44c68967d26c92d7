-------------------------------- MODULE Files --------------------------------
(* Names of files: templates filled with a date, releases by period, lists of  *)
(* identifiers, directories. Text is a sequence of characters (strings of one  *)
(* character); Text(s) joins them.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE s[1] \o Text(Tail(s))
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
(* every run of four letters c, from the left, gives way to v *)
RECURSIVE Put4(_, _, _)
Put4(s, c, v) == IF Len(s) < 4 THEN s
                 ELSE IF \A k \in 1..4 : s[k] = c THEN <<v>> \o Put4(SubSeq(s, 5, Len(s)), c, v)
                 ELSE <<s[1]>> \o Put4(Tail(s), c, v)
Fill(s, y, m, d) == Put4(Put4(Put4(s, "Y", Pad4(y)), "M", Pad2(m)), "D", Pad2(d))
(* a directory and a name in it *)
Join(d, f) == IF d = <<>> THEN f ELSE IF d[Len(d)] = "/" THEN d \o f ELSE d \o <<"/">> \o f
Path(d, f, y, m, day) == Text(Join(Fill(d, y, m, day), Fill(f, y, m, day)))
(* the month of a release of the archive *)
Release(dir, y, m, v) ==
  IF v = "3.0" THEN LET r == IF y <= 2014 THEN "3.0.0" ELSE "3.0.1"
                    IN dir \o "/ICOADS." \o r \o "/IMMA1_R" \o r \o "_" \o ToString(y) \o "-" \o Pad2(m) \o ".gz"
  ELSE IF y >= 2008 THEN dir \o "/R2.5.2." \o ToString(y) \o "." \o Pad2(m) \o ".gz"
  ELSE dir \o "/ICOADS.2.5.1/R2.5.1." \o ToString(y) \o "." \o Pad2(m) \o ".gz"
(* the form of an identifier by which it is compared: nine characters, padded with blanks *)
RECURSIVE RStrip(_)
RStrip(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] \in {" ", "\r", "\n", "\t"} THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Nine(s) == LET t == RStrip(s) IN [k \in 1..(IF Len(t) < 9 THEN 9 ELSE Len(t)) |-> IF k <= Len(t) THEN t[k] ELSE " "]
Blank(s) == RStrip(s) = <<>>
Excluded(id, lines) == \E k \in DOMAIN lines : ~Blank(lines[k]) /\ Nine(lines[k]) = Nine(id)
(* the first of a sequence of candidates that is there, or 0 *)
FirstOf(n, there(_)) == IF \E k \in 1..n : there(k) THEN CHOOSE k \in 1..n : there(k) /\ \A j \in 1..(k - 1) : ~there(j) ELSE 0
=============================================================================
