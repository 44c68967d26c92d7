------------------------------ MODULE T_Monthly -------------------------------
(* Recorded runs of the monthly programs against Monthly, BaseQC, Repeats and   *)
(* the filters in front of the buddy checks.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceBase, Monthly
VARIABLES i
C == INSTANCE Calendar
Q == INSTANCE BaseQC WITH f <- <<>>, fl <- <<>>
R == INSTANCE Repeats WITH w <- <<>>, t <- <<>>, pos <- 0, run <- <<>>, hit <- {}
NoV == -99999
Range(s) == {s[k] : k \in 1..Len(s)}
First(S) == CHOOSE x \in S : TRUE
(* ---- the archive and the reports held ---------------------------------- *)
Pad(s, S) == s \in S
(* identifiers in the list are shorter than nine characters: compare with the padded one given by the harness *)
File(v, t) == LET S == {k \in 1..Len(v.archive) : Key(v.archive[k].y, v.archive[k].m) = t} IN IF S = {} THEN <<>> ELSE v.archive[First(S)].recs
Line(x) == [uid |-> x.uid, ok |-> x.form = "ok", id |-> x.f.ID, m |-> Key(x.f.YR, x.f.MO), f |-> x.f]
Arch(v, t) == [s \in (t - 1)..(t + 1) |-> LET a == File(v, s) IN [k \in 1..Len(a) |-> Line(a[k])]]
(* ---- norms --------------------------------------------------------------- *)
Band(lat) == IF lat > 3000 THEN 0 ELSE IF lat > -3000 THEN 1 ELSE 2
RealDay(m, d) == d # NoV /\ d >= 1 /\ d <= C!MLen(2004, m)
Slice(n, m, d) == IF n = 1 THEN 0 ELSE C!Pentad(m, d) - 1
Norm(fd, g) == IF ~RealDay(g.MO, g.DY) THEN NoV ELSE fd.base + fd.step * Slice(fd.n, g.MO, g.DY) + fd.row * Band(g.LAT)
Norms(v, g) == LET F == v.fields full == v.program = "full" N(x) == IF full THEN Norm(x, g) ELSE NoV IN
  [SST |-> Norm(IF v.program = "hires" THEN F.SST_hires ELSE F.SST_mean, g), AT |-> N(F.AT_mean), AT2 |-> N(F.AT2_mean), AT2sd |-> N(F.AT2_stdev),
   DPT |-> N(F.DPT_mean), DPTsd |-> N(F.DPT_stdev), SLP |-> N(F.SLP_mean), SLPsd |-> N(F.SLP_stdev)]
(* moist air quantities are there when temperatures and the norm of the pressure are; their limits never matter here *)
Hum(g, n) == IF g.AT = NoV \/ g.DPT = NoV \/ n.SLP = NoV THEN NoV ELSE 0
Wide == [hard |-> <<-1000000, 1000000>>]
Pars(v) == [SST |-> v.params.SST, AT |-> v.params.AT, DPT |-> v.params.DPT, SLP |-> v.params.SLP, W |-> v.params.W, SHU |-> Wide, RH |-> Wide]
(* a report held, with its mended fields, norms, and the two flags taken as they are: day and track *)
Look(st, u, n) == LET S == {k \in 1..Len(st) : st[k].uid = u} IN IF S = {} THEN 9 ELSE st[First(S)][n]
Report1(v, x, st) == LET g0 == Q!Mended(x.f) n == Norms(v, g0) h == Hum(g0, n)
     g == [k \in DOMAIN g0 \cup {"SHU", "CRH"} |-> IF k \in {"SHU", "CRH"} THEN h ELSE g0[k]]
  IN [uid |-> x.uid, id |-> x.id, m |-> x.m, g |-> g, n |-> n, trk |-> Look(st, x.uid, "trk"), day |-> Look(st, x.uid, "day")]
Fl(v, r, x) == Q!Flag(x, r.g, r.n, Pars(v), r.day)
Eligible(v, r) == \A x \in {"POS.date", "POS.time", "POS.pos", "POS.blklst"} : Fl(v, r, x) = 0
Base == {"POS.date", "POS.time", "POS.pos", "POS.blklst"}
Need(x) == CASE x = "SST" -> Base \cup {"POS.is780", "SST.noval", "SST.freez", "SST.clim", "SST.nonorm"}
             [] x = "AT" -> Base \cup {"AT.mat_blacklist", "POS.day", "AT.noval", "AT.clim", "AT.nonorm"}
             [] x = "DPT" -> Base \cup {"DPT.hum_blacklist", "DPT.noval", "DPT.clim", "DPT.nonorm"}
             [] x = "SLP" -> Base \cup {"SLP.noval", "SLP.clim", "SLP.nonorm"}
Takes(v, r, x) == r.trk = 0 /\ (\A n \in Need(x) : Fl(v, r, n) = 0) /\ (x = "AT" => Fl(v, r, "POS.isship") = 1)
(* ---- the comparison grid ------------------------------------------------- *)
G == INSTANCE Grid
Lon180(x) == IF x > 18000 THEN x - 36000 ELSE x
Cell(g) == <<G!ColM(Lon180(g.LON), 9000, 100), G!RowM(g.LAT, 9000, 100), C!Pentad(g.MO, g.DY)>>
Abs(x) == IF x < 0 THEN -x ELSE x
Around(d, m) == LET x == Abs(d) % m IN IF x <= m - x THEN x ELSE m - x
Buddies(a, b) == a # b /\ Around(a[1] - b[1], 360) <= 1 /\ Abs(a[2] - b[2]) <= 1 /\ Around(a[3] - b[3], 73) <= 2
Sd(v, x) == CASE x \in {"SST", "AT"} -> v.fields.pentad_sd.base [] x = "DPT" -> v.fields.DPT_stdev.base [] x = "SLP" -> v.fields.SLP_stdev.base
(* ---- one month ------------------------------------------------------------ *)
Vals(s, x) == [k \in 1..Len(s) |-> s[k].g[x]]
Minutes(g) == C!DayNumber(g.YR, g.MO, g.DY) * 1440 + g.HR \div 2
(* everything the month comes to: held reports, voyages, flags; built once *)
Facts(v, t, st) ==
  LET hh == Held(Arch(v, t), t, Range(v.bad9))
      h == [k \in 1..Len(hh) |-> Report1(v, hh[k].l, st)]
      el == {k \in 1..Len(h) : Eligible(v, h[k])}
      vars == IF v.program = "full" THEN {"SST", "AT", "DPT", "SLP"} ELSE {"SST"}
      part == [x \in vars |-> {k \in 1..Len(h) : Takes(v, h[k], x)}]
      ids == {h[k].id : k \in 1..Len(h)}
      idx(id) == SelectSeq([k \in 1..Len(h) |-> k], LAMBDA k : h[k].id = id /\ k \in el)
  IN [h |-> h, el |-> el, part |-> part, voy |-> [id \in ids |-> idx(id)]]
(* flags of the checks along a voyage *)
RepHit(v, F, k, x) == LET s == F.voy[F.h[k].id] IN \E q \in R!Repeated([j \in 1..Len(s) |-> F.h[s[j]].g[x]], v.params.rep) : s[q] = k
(* values are in eighths here, in fortieths there *)
Fortieths(x) == IF x = R!No THEN x ELSE 5 * x
RoundHit(v, F, k) == LET s == F.voy[F.h[k].id] IN \E q \in R!Rounded([j \in 1..Len(s) |-> Fortieths(F.h[s[j]].g.DPT)], v.params.round) : s[q] = k
SatHit(v, F, k) == LET s == F.voy[F.h[k].id]
                       w == [j \in 1..Len(s) |-> F.h[s[j]].g.AT # NoV /\ F.h[s[j]].g.AT = F.h[s[j]].g.DPT]
                       tt == [j \in 1..Len(s) |-> Minutes(F.h[s[j]].g)]
                   IN \E q \in R!Saturated(w, tt, v.params.sat) : s[q] = k
B(x) == IF x THEN 1 ELSE 0
HasBuddy(F, k, x) == \E q \in F.part[x] : Buddies(Cell(F.h[k].g), Cell(F.h[q].g))
(* the flags allowed in an output file: group and name *)
Allowed(v, F, k, x, n) ==
  LET r == F.h[k] e == k \in F.el whole == v.program # "hires" IN
  CASE n \in {"trk"} -> IF e THEN {0, 1} \cap {r.trk} ELSE {9}
    [] n \in {"iquam_track", "spike"} -> IF e /\ whole THEN {0, 1} ELSE {9}
    [] n = "rep" -> IF e THEN {B(RepHit(v, F, k, x))} ELSE {9}
    [] n = "repsat" -> IF e THEN {B(SatHit(v, F, k))} ELSE {9}
    [] n = "round" -> IF e THEN {B(RoundHit(v, F, k))} ELSE {9}
    [] n = "bud" -> {B(k \in F.part[x] /\ HasBuddy(F, k, x) /\ Sd(v, x) = 0)}
    [] n = "bbud" -> IF x = "DPT" THEN {9} ELSE {IF k \in F.part[x] /\ v.params.prior = 1 THEN 9 ELSE 0}
    [] n \in {"nbud"} \/ (n = "freez" /\ x # "SST") -> {9}
    [] OTHER -> {Fl(v, r, x \o "." \o n)}
GroupNames(x, one) ==
  CASE x = "POS" -> {"day", "isship", "trk", "date", "time", "pos", "blklst", "isbuoy", "iquam_track"} \cup (IF one THEN {"isdrifter"} ELSE {})
    [] x = "SST" -> {"bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep", "spike", "hardlimit"}
    [] x = "AT" -> {"bud", "clim", "nonorm", "freez", "noval", "mat_blacklist", "bbud", "rep", "hardlimit"}
    [] x = "DPT" -> {"bud", "clim", "nonorm", "freez", "noval", "hum_blacklist", "bbud", "rep", "ssat", "repsat", "round", "hardlimit"}
    [] x = "SLP" -> {"bud", "clim", "nonorm", "noval", "rep"}
    [] x = "W" -> {"noval", "hardlimit", "consistency", "wind_blacklist"}
(* ---- values ---------------------------------------------------------------- *)
Minus(a, b) == IF a = NoV \/ b = NoV THEN NoV ELSE a - b
Season(m) == CASE m \in {12, 1, 2} -> "bg_DJF" [] m \in {3, 4, 5} -> "bg_MAM" [] m \in {6, 7, 8} -> "bg_JJA" [] OTHER -> "bg_SON"
Field(v, g) == LET y == C!PrevDay(<<g.YR, g.MO, g.DY>>) S == {k \in 1..Len(v.ostia) : v.ostia[k].d = y} IN IF S = {} THEN 0 ELSE First(S)
Matched(v, g) == v.tracking = 1 /\ v.program # "hires" /\ g.YR >= 1985
Value(v, r, x) ==
  CASE x \in {"AT_anom"} -> Minus(r.g.AT, r.n.AT) [] x = "SST_anom" -> Minus(r.g.SST, r.n.SST)
    [] x = "DPT_anom" -> Minus(r.g.DPT, r.n.DPT) [] x = "SLP_anom" -> Minus(r.g.SLP, r.n.SLP)
    [] x \in {"OSTIA", "ICE", "BGVAR"} -> IF ~Matched(v, r.g) THEN NoV
         ELSE IF x = "BGVAR" THEN LET fd == v.fields[Season(r.g.MO)] IN fd.base + fd.row * Band(r.g.LAT)
         ELSE LET k == Field(v, r.g) IN IF k = 0 THEN NoV ELSE IF x = "OSTIA" THEN v.ostia[k].sst + 8 * Band(r.g.LAT) ELSE v.ostia[k].ice + Band(r.g.LAT)
    [] OTHER -> r.g[x]
(* what a day that is not in the calendar is matched with is not said *)
Free(r, x) == x \in {"OSTIA", "ICE", "BGVAR"} /\ (r.g.DY = NoV \/ ~C!ValidDate(r.g.YR, r.g.MO, r.g.DY))
Columns(one) == {"YR", "MO", "DY", "HR", "LAT", "LON", "AT", "AT_anom", "SST", "SST_anom", "DPT", "DPT_anom", "SLP", "SLP_anom", "OSTIA"}
                \cup (IF one THEN {"ICE", "BGVAR"} ELSE {"W", "D"})
(* ---- the files of a month --------------------------------------------------- *)
Uids(rs) == [k \in 1..Len(rs) |-> rs[k].uid]
Mine(F, t) == SelectSeq([k \in 1..Len(F.h) |-> k], LAMBDA k : F.h[k].m = t)
Safe(id, p) == LET S == {k \in 1..Len(p) : p[k].id = id} IN IF S = {} THEN "" ELSE p[First(S)].safe
GroupsOf(v, one) == IF v.program = "hires" THEN {"SST"} ELSE IF one THEN {"POS", "SST"} ELSE IF v.program = "track" THEN {} ELSE {"POS", "SST", "AT", "DPT", "SLP", "W"}
VarFile(v, one) == v.program # "hires" /\ (one \/ v.program = "full")
Tail0(v) == IF v.program = "hires" THEN "hires_run" ELSE "run"
(* one set of files: for the month (id "") or for one drifter; ks: the reports it has to hold *)
FilesV(v, F, ks, m, name, one) ==
  LET vs == {q \in 1..Len(m.vars) : m.vars[q].for = name}
      gs(x) == {q \in 1..Len(m.flags) : m.flags[q].for = name /\ m.flags[q].group = x}
      want == [k \in 1..Len(ks) |-> F.h[ks[k]].uid]
      full == Len(ks) > 0
      GR == {"POS", "SST", "AT", "DPT", "SLP", "W", "AT2"}
  IN Clause("one file of values", Cardinality(vs) <= (IF VarFile(v, one) THEN 1 ELSE 0) /\ (full /\ VarFile(v, one) => vs # {}))
  \cup Clause("one file of flags for each group", \A x \in GR : Cardinality(gs(x)) <= (IF x \in GroupsOf(v, one) THEN 1 ELSE 0) /\ (full /\ x \in GroupsOf(v, one) => gs(x) # {}))
  \cup Clause("named after the run", (\A q \in vs : m.vars[q].tail = Tail0(v)) /\ (\A x \in GR : \A q \in gs(x) : m.flags[q].tail = Tail0(v)))
  \cup LET rowsOK == (\A q \in vs : Uids(m.vars[q].recs) = want) /\ (\A x \in GR : \A q \in gs(x) : Uids(m.flags[q].recs) = want)
       IN IF ~rowsOK THEN {"the reports of the month, each once"}
          ELSE UNION {UNION {UNION {Clause("value of " \o x, Free(F.h[ks[k]], x) \/ m.vars[q].recs[k].c[x] = Value(v, F.h[ks[k]], x)) : x \in Columns(one)}
                             \cup Clause("identifier", m.vars[q].recs[k].id = F.h[ks[k]].id) : k \in 1..Len(ks)} : q \in vs}
          \cup UNION {UNION {UNION {UNION {Clause("flag " \o x \o "." \o n, m.flags[q].recs[k].c[n] \in Allowed(v, F, ks[k], x, n)) : n \in GroupNames(x, one)}
                             : k \in 1..Len(ks)} : q \in gs(x)} : x \in GR \cap GroupsOf(v, one)}
MonthV(v, F, t, m) ==
  LET ks == Mine(F, t)
      dr == {F.h[ks[q]].id : q \in {q \in 1..Len(ks) : F.h[ks[q]].g.PT = 7 /\ F.h[ks[q]].id # ""}}
      of(id) == SelectSeq(ks, LAMBDA k : F.h[k].id = id /\ F.h[k].g.PT = 7)
      names == {Safe(id, v.safe) : id \in dr}
  IN FilesV(v, F, ks, m, "", FALSE)
  \cup (IF v.tracking = 0 THEN Clause("no drifter files unless asked for", m.listed = 0 /\ (\A q \in 1..Len(m.vars) : m.vars[q].for = "") /\ (\A q \in 1..Len(m.flags) : m.flags[q].for = ""))
        ELSE Clause("the drifters of the month are listed, each once", Len(m.ids) = Cardinality(dr) /\ Range(m.ids) = {[id |-> d, safe |-> Safe(d, v.safe)] : d \in dr})
        \cup Clause("files for drifters only", (\A q \in 1..Len(m.vars) : m.vars[q].for \in names \cup {""}) /\ (\A q \in 1..Len(m.flags) : m.flags[q].for \in names \cup {""}))
        \cup UNION {FilesV(v, F, of(id), m, Safe(id, v.safe), TRUE) : id \in dr})
(* ---- the checks made ---------------------------------------------------------- *)
Along(v) == IF v.program = "hires" THEN {<<"track_check", "", "track_check">>, <<"find_repeated_values", "SST", "find_repeated_values">>}
  ELSE {<<"track_check", "", "track_check">>, <<"iquam_track_check", "", "IQUAM_track_check">>, <<"spike_check", "", "IQUAM_spike_check">>,
        <<"find_saturated_runs", "", "saturated_runs">>, <<"find_multiple_rounded_values", "", "multiple_rounded_values">>}
       \cup {<<"find_repeated_values", x, "find_repeated_values">> : x \in IF v.program = "full" THEN {"SST", "AT", "AT2", "DPT", "SLP"} ELSE {"SST"}}
Among(v) == {<<"bayesian_buddy_check", "SST", "all", <<"sd1:sst", "sd2:sst", "sd3:sst">> >>, <<"mds_buddy_check", "SST", "mds_buddy_check", <<"pentad_sd:sst">> >>}
  \cup (IF v.program # "full" THEN {} ELSE
        {<<"bayesian_buddy_check", "AT", "all", <<"sd1:sst", "sd2:sst", "sd3:sst">> >>, <<"mds_buddy_check", "AT", "mds_buddy_check", <<"pentad_sd:sst">> >>,
         <<"mds_buddy_check", "DPT", "mds_buddy_check", <<"DPT_stdev:sddpt">> >>, <<"mds_buddy_check", "SLP", "slp_buddy_check", <<"SLP_stdev:sdslp">> >>})
IsDeck(e) == e.fn \in {"bayesian_buddy_check", "mds_buddy_check"}
Named(F, ks) == {F.h[k].uid : k \in ks}
EventsV(v, F, ev) ==
  LET V == {k \in 1..Len(ev) : ~IsDeck(ev[k]) /\ ev[k].uids # <<>>}
      D == {k \in 1..Len(ev) : IsDeck(ev[k])}
      voyages == {F.voy[id] : id \in DOMAIN F.voy} \ {<<>>}
      hits(c, s) == {k \in V : <<ev[k].fn, ev[k].var, ev[k].par>> = c /\ Len(ev[k].uids) = Len(s) /\ Range(ev[k].uids) = Named(F, Range(s))}
  IN Clause("each check along each whole voyage, once", \A c \in Along(v) : \A s \in voyages : Cardinality(hits(c, s)) = 1)
  \cup Clause("no other checks along voyages", Cardinality(V) = Cardinality(Along(v)) * Cardinality(voyages))
  \cup Clause("each comparison with neighbours, with its deviations and parameters",
         {<<ev[k].fn, ev[k].var, ev[k].par, ev[k].sd>> : k \in D} = Among(v) /\ Cardinality(D) = Cardinality(Among(v)))
  \cup Clause("all reports that pass the checks before it, of all three months, are compared",
         \A k \in D : ev[k].var \in DOMAIN F.part /\ Range(ev[k].uids) = Named(F, F.part[ev[k].var]) /\ Len(ev[k].uids) = Cardinality(F.part[ev[k].var]))
(* ---- a run ---------------------------------------------------------------------- *)
Empty == [vars |-> <<>>, flags |-> <<>>, ids |-> <<>>, listed |-> 0]
MonthOut(o, t) == LET S == {k \in 1..Len(o.months) : o.months[k].t = t} IN IF S = {} THEN Empty ELSE o.months[First(S)]
StateOf(ev) == LET D == {k \in 1..Len(ev) : IsDeck(ev[k])} IN IF D = {} THEN <<>> ELSE ev[First(D)].state
Of(o, k) == SelectSeq(o.events, LAMBDA e : e.month = k)
Checked(v, o, k, t) == LET ev == Of(o, k) IN
   CHOOSE z \in {MonthV(v, F, t, MonthOut(o, t)) \cup EventsV(v, F, ev) : F \in {Facts(v, t, StateOf(ev))}} : TRUE
RunV(v, o) ==
  LET a == Key(v.y1, v.m1) b == Key(v.y2, v.m2) IN
     Clause("nothing else is written", o.strays = <<>> /\ \A k \in 1..Len(o.months) : o.months[k].t \in a..b)
  \cup (IF v.tracking = 1 THEN Clause("a list of drifters for every month", \A t \in a..b : MonthOut(o, t).listed = 1) ELSE {})
  \cup UNION {Checked(v, o, t - a + 1, t) : t \in a..b}
Verdict(r) == CASE r.k = "run" -> RunV(r.in, r.out)
TInit == i = 1 /\ month = 0 /\ todo = <<>> /\ held = <<>> /\ stage = "" /\ tracked = {} /\ out = <<>>
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1 /\ UNCHANGED mvars
TraceSpec == TInit /\ [][TNext]_<<i, mvars>>
===============================================================================
