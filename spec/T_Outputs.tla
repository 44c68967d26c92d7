------------------------------ MODULE T_Outputs ------------------------------
(* inp.reps: the reports (values in thousandths); inp.ops: what was done; out: *)
(* the files that are there at the end.                                        *)
EXTENDS Outputs, Calendar, TraceBase
VARIABLE i
Range(s) == {s[k] : k \in DOMAIN s}
(* identifiers that the harness uses, and their form in a file name *)
IdTable == <<"SHIP1", "AB/1", "C*2", "D E", "A/B*C/", "7", "46001", "/F//G", "**H*", "k_l", "\\N">>
SafeTable == <<"SHIP1", "AB_1", "C_2", "D E", "A_B_C_", "7", "46001", "_F__G", "__H_", "k_l">>
(* the collection, flags and files after the operations, as a pure function *)
Kind(o) == o.kind
GroupsOf(o) == CASE o.kind \in {"deck", "deck_test"} -> DeckGroups
                 [] o.kind \in {"min", "min_test"} -> MinGroups
                 [] o.kind = "voyage" -> VoyageGroups
                 [] o.kind = "tracking" -> {"TRACK"}
                 [] o.kind \in {"qc", "qc_test", "vqc"} -> Range(o.groups)
ByShip(o) == o.kind \in {"voyage", "vqc", "tracking"}
IsTest(o) == o.kind \in {"deck_test", "min_test", "qc_test"}
(* files: name -> [rows, flags, group, kind] *)
RECURSIVE Run(_, _, _)
Run(ops, v, st) ==
  IF ops = <<>> THEN st
  ELSE LET o == Head(ops)
           nxt == CASE o.op = "add" -> [st EXCEPT !.reps = Append(@, o.u)]
                    [] o.op = "flag" -> [st EXCEPT !.flags = Put(@, <<o.u, o.g, o.n>>, o.v)]
                    [] o.op = "write" ->
                       LET id == IF ByShip(o) THEN SafeTable[v.reps[st.reps[1]].id] ELSE ""
                           rows == IF o.kind = "tracking" THEN st.reps
                                   ELSE SelectSeq(st.reps, LAMBDA u : v.reps[u].YR = o.y * 1000 /\ v.reps[u].MO = o.m * 1000)
                           gs == GroupsOf(o)
                           name(g) == FileName(g, o.y, o.m, id, o.run, IsTest(o))
                           new == {name(g) : g \in gs}
                       IN [st EXCEPT !.files =
                            [f \in DOMAIN @ \cup new |->
                               IF f \in new THEN [rows |-> rows, flags |-> st.flags, group |-> CHOOSE g \in gs : name(g) = f, op |-> o]
                               ELSE st.files[f]]]
       IN Run(Tail(ops), v, nxt)
End(v) == Run(v.ops, v, [reps |-> <<>>, flags |-> <<>>, files |-> <<>>])
(* columns a file must have *)
Columns(f) ==
  CASE f.op.kind \in {"deck", "deck_test"} -> IF f.group = "" THEN DeckValues ELSE DeckFlags[f.group]
    [] f.op.kind \in {"min", "min_test"} -> IF f.group = "" THEN MinValues ELSE MinFlags[f.group]
    [] f.op.kind = "voyage" -> IF f.group = "" THEN VoyageValues ELSE VoyageFlags[f.group]
    [] f.op.kind = "tracking" -> TrackValues \cup TrackPos \cup TrackSst
    [] f.op.kind \in {"qc", "qc_test", "vqc"} -> Range(f.op.names)
(* what a column of a report holds *)
Valid(r) == /\ None \notin {r.YR, r.MO, r.DY}
            /\ ValidDate(r.YR \div 1000, r.MO \div 1000, r.DY \div 1000)
Anom(r, x) == IF r[x] = None \/ r["n" \o x] = None THEN None ELSE r[x] - r["n" \o x]
Cell(f, u, r, c) ==
  IF f.group \notin {"", "TRACK"} THEN Flag(f.flags, u, f.group, c) * 1000
  ELSE IF c = "PENTAD" THEN IF Valid(r) THEN Pentad(r.MO \div 1000, r.DY \div 1000) * 1000 ELSE 0
  ELSE IF c \in {"AT_anom", "SST_anom", "DPT_anom", "SLP_anom"}
       THEN Anom(r, CASE c = "AT_anom" -> "AT" [] c = "SST_anom" -> "SST" [] c = "DPT_anom" -> "DPT" [] c = "SLP_anom" -> "SLP")
  ELSE IF f.group = "TRACK" /\ c \in TrackPos THEN Flag(f.flags, u, "POS", c) * 1000
  ELSE IF f.group = "TRACK" /\ c \in TrackSst THEN Flag(f.flags, u, "SST", c) * 1000
  ELSE r[c]
PentadKnown(r) == Valid(r) \/ r.DY = None
Date(r) == IF Valid(r) THEN ToString(r.YR \div 1000) \o "-" \o Two(r.MO \div 1000) \o "-" \o Two(r.DY \div 1000) ELSE "0000-00-00"
Known(f) == IF f.group \notin {"", "TRACK"} THEN Columns(f) ELSE Columns(f)
FileBad(v, name, f, o) ==
  LET want == f.rows
      cols == {o.cols[k] : k \in DOMAIN o.cols}
      vals == f.group \in {"", "TRACK"}
  IN Clause("one line for each report of the month, in order, under its identifier", o.uids = [k \in DOMAIN want |-> v.reps[want[k]].uid])
  \cup Clause("a header that names every column once", Columns(f) \subseteq cols /\ Cardinality(cols) = Len(o.cols))
  \cup Clause("every line has a cell for each column", \A k \in DOMAIN o.rows : Len(o.rows[k]) = Len(o.cols))
  \cup Clause("each report's own values and flags",
         Len(o.rows) = Len(want) =>
         \A k \in DOMAIN want : LET r == v.reps[want[k]] IN
           Len(o.rows[k]) = Len(o.cols) =>
           \A c \in DOMAIN o.cols : (o.cols[c] \in Columns(f) /\ (o.cols[c] = "PENTAD" => PentadKnown(r))) =>
              o.rows[k][c] = Cell(f, want[k], r, o.cols[c]))
  \cup Clause("identifier and date of each report",
         vals /\ Len(o.rows) = Len(want) =>
           /\ o.ids = [k \in DOMAIN want |-> IdTable[v.reps[want[k]].id]]
           /\ o.dates = [k \in DOMAIN want |-> Date(v.reps[want[k]])])
VFiles(v, o) ==
  LET st == End(v)
      names == {o.files[k].name : k \in DOMAIN o.files}
  IN Clause("the files of each write, and no other", names = DOMAIN st.files /\ o.strays = 0)
  \cup UNION {IF o.files[k].name \in DOMAIN st.files THEN FileBad(v, o.files[k].name, st.files[o.files[k].name], o.files[k]) ELSE {} : k \in DOMAIN o.files}
(* the old fixed-width line of a report: numbers in their places, missing as -32768 *)
Pv(x, per) == IF x = None THEN -32768 ELSE x \div per
VLine(v, o) ==
  LET r == v.r
      dsvs == IF r.DS = None \/ r.VS = None THEN 9999 ELSE (r.DS \div 1000) * 100 + r.VS \div 1000
      q(g, n) == Flag([k \in {<<1, v.fl[x].g, v.fl[x].n>> : x \in DOMAIN v.fl} |-> (CHOOSE x \in Range(v.fl) : <<1, x.g, x.n>> = k).v], 1, g, n)
      pos == <<q("POS", "day"), q("POS", "land"), q("POS", "trk"), q("POS", "date"), q("POS", "time"), q("POS", "pos"), q("POS", "blklst")>>
  IN Clause("the line ends where it should", o.len = v.len)
  \cup Clause("identifier and unique identifier", o.id = IdTable[r.id] /\ o.uid = r.uid)
  \cup Clause("place and time", o.place = <<r.LAT \div 10, r.LON \div 10, r.YR \div 1000, r.MO \div 1000, Pv(r.DY, 1000), Pv(r.HR, 10)>>)
  \cup Clause("values and anomalies", o.vals = IF v.long = 1
       THEN <<Pv(r.AT, 100), Pv(Anom(r, "AT"), 10), Pv(r.SST, 100), Pv(Anom(r, "SST"), 10), Pv(r.SLP, 100), Pv(r.DPT, 100), Pv(Anom(r, "DPT"), 10),
             Pv(r.SHU, 100), Pv(Anom(r, "SHU"), 10), Pv(r.VAP, 100), Pv(Anom(r, "VAP"), 10), Pv(r.CRH, 100), Pv(Anom(r, "CRH"), 10),
             Pv(r.CWB, 100), Pv(Anom(r, "CWB"), 10), Pv(r.DPD, 100), Pv(Anom(r, "DPD"), 10)>>
       ELSE <<Pv(r.AT, 100), Pv(Anom(r, "AT"), 10), Pv(r.SST, 100), Pv(Anom(r, "SST"), 10)>>)
  \cup Clause("ship, deck and platform", o.ship = <<dsvs, r.DCK \div 1000, Pv(r.PT, 1000)>>)
  \cup Clause("position flags", o.pos = pos \o <<IF v.long = 1 THEN q("POS", "iquam_track") ELSE q("POS", "dup")>>)
  \cup Clause("flags of the sea-surface temperature",
       o.sst = <<q("SST", "bud"), q("SST", "clim"), q("SST", "nonorm"), q("SST", "freez"), q("SST", "noval"),
                 IF v.long = 1 THEN q("SST", "spike") ELSE q("SST", "nbud"), q("SST", "bbud"), q("SST", "rep")>>)
  \cup Clause("flags of the air temperature",
       o.at = <<q("AT", "bud"), q("AT", "clim"), q("AT", "nonorm"), 9, q("AT", "noval"), q("AT", "nbud"), q("AT", "bbud"), q("AT", "rep")>>)
  \cup Clause("flags of the dew point", v.long = 1 =>
       o.dpt = <<q("DPT", "bud"), q("DPT", "clim"), q("DPT", "nonorm"), q("DPT", "ssat"), q("DPT", "noval"), q("DPT", "round"),
                 q("DPT", "bbud"), q("DPT", "rep"), q("DPT", "repsat")>>)
  \cup Clause("last flags", o.last = <<q("POS", "few"), q("POS", "ntrk"), 9, 9, 9, 9, 9, 9>>)
Verdict(r) == CASE r.k = "files" -> VFiles(r.in, r.out)
                     [] r.k = "line" -> VLine(r.in, r.out)
TInit == i = 1 /\ OInit
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1 /\ UNCHANGED ovars
TraceSpec == TInit /\ [][TNext]_<<i, ovars>>
=============================================================================
