------------------------------- MODULE Outputs -------------------------------
(* A collection of reports, their flags, and the output files written from it. *)
(* files maps a file name to what it holds: the reports, in order, and the     *)
(* flags as they were when it was written.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES reps,      \* sequence of report numbers: the collection, in order
          flags,     \* <<report, group, name>> -> value
          files      \* name -> [rows, flags, group]
ovars == <<reps, flags, files>>
Unset == 9
Flag(fl, u, g, n) == IF <<u, g, n>> \in DOMAIN fl THEN fl[<<u, g, n>>] ELSE Unset
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
OInit == reps = <<>> /\ flags = <<>> /\ files = <<>>
Add(u) == reps' = Append(reps, u) /\ UNCHANGED <<flags, files>>
SetFlag(u, g, n, v) == flags' = Put(flags, <<u, g, n>>, v) /\ UNCHANGED <<reps, files>>
(* names of months and files *)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
YearMonth(y, m) == ToString(y) \o Two(m)
FileName(group, y, m, id, run, test) ==
  (IF test THEN "Test_" ELSE "") \o
  (IF group = "" THEN "Variables_" ELSE IF group = "TRACK" THEN "Tracking_" ELSE group \o "_qc_") \o
  YearMonth(y, m) \o (IF id = "" THEN "" ELSE "_" \o id) \o "_" \o run \o ".csv"
(* write the reports of a month to one file for each group ("" stands for the values) *)
OfMonth(rs, month(_), y, m) == SelectSeq(rs, LAMBDA u : month(u) = <<y, m>>)
Write(groups, rows, y, m, id, run, test) ==
  LET name(g) == FileName(g, y, m, id, run, test)
      new == {name(g) : g \in groups}
  IN /\ files' = [f \in DOMAIN files \cup new |->
                    IF f \in new THEN [rows |-> rows, flags |-> flags, group |-> CHOOSE g \in groups : name(g) = f]
                    ELSE files[f]]
     /\ UNCHANGED <<reps, flags>>

(* what each program's files must contain, besides the identifier of the report *)
DeckGroups == {"", "POS", "SST", "AT", "DPT", "SLP", "W"}
MinGroups == {"", "POS", "SST", "AT", "DPT"}
VoyageGroups == {"", "POS", "SST"}
Where == {"PENTAD", "YR", "MO", "DY", "HR", "LAT", "LON"}
MinValues == Where \cup {"AT", "AT_anom", "SST", "SST_anom", "DPT", "DPT_anom"}
DeckValues == MinValues \cup {"SLP", "SLP_anom", "OSTIA", "W", "D"}
VoyageValues == MinValues \cup {"SLP", "SLP_anom", "OSTIA", "ICE", "BGVAR"}
TrackValues == Where \cup {"SST", "OSTIA", "BGVAR", "ICE"}
PosMin == {"day", "isship", "trk", "date", "time", "pos", "blklst", "isbuoy"}
SstMin == {"bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep"}
DptMin == {"bud", "clim", "nonorm", "freez", "noval", "hum_blacklist", "bbud", "rep", "ssat", "repsat", "round"}
AtMin == {"bud", "clim", "nonorm", "freez", "noval", "mat_blacklist", "bbud", "rep"}
DeckFlags == [POS |-> PosMin \cup {"iquam_track"}, SST |-> SstMin \cup {"spike", "hardlimit"},
              AT |-> AtMin \cup {"hardlimit"}, DPT |-> DptMin \cup {"hardlimit"},
              SLP |-> {"bud", "clim", "nonorm", "noval", "rep"},
              W |-> {"noval", "hardlimit", "consistency", "wind_blacklist"}]
MinFlags == [POS |-> PosMin, SST |-> SstMin, AT |-> AtMin, DPT |-> DptMin]
VoyageFlags == [POS |-> PosMin \cup {"iquam_track", "isdrifter"}, SST |-> SstMin \cup {"spike", "hardlimit"}]
TrackPos == {"drf_agr", "drf_spd"} \cup VoyageFlags.POS
TrackSst == {"drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short"} \cup VoyageFlags.SST

(* ---- properties of a write ------------------------------------------------ *)
NoRepeats(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
=============================================================================
