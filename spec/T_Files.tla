------------------------------- MODULE T_Files -------------------------------
EXTENDS Files, TraceBase
VARIABLE i
Range(s) == {s[k] : k \in DOMAIN s}
FillRec(v, o) == Clause("placeholders give way to the date and nothing else changes", o.s = Text(Fill(v.s, v.y, v.m, v.d)))
MakeRec(v, o) == Clause("the name is the filled directory and the filled name", o.s = Path(v.dir, v.file, v.y, v.m, v.d))
ReleaseRec(v, o) == Clause("a month is read from the release of its period", o.s = Release(v.dir, v.y, v.m, v.v))
StubRec(v, o) ==
  LET there(k) == Path(v.tpl[k].dir, v.tpl[k].file, v.y, v.m, 1) \in Range(v.files)
      k == IF v.y = None \/ v.m = None THEN 0 ELSE FirstOf(Len(v.tpl), there)
  IN Clause("the first template under which a file exists gives the name, and none gives nothing",
            o.s = (IF k = 0 THEN "" ELSE Path(v.tpl[k].dir, v.tpl[k].file, v.y, v.m, 1)))
IdsRec(v, o) ==
  Clause("an identifier is excluded exactly when its nine characters are on the list",
         Len(o.hit) = Len(v.probe) /\ \A k \in DOMAIN v.probe : (o.hit[k] = 1) <=> (~Blank(v.probe[k]) /\ Excluded(v.probe[k], v.lines)))
  \cup Clause("a blank identifier is not excluded", \A k \in DOMAIN v.probe : Blank(v.probe[k]) => k \in DOMAIN o.hit /\ o.hit[k] = 0)
RECURSIVE Below(_, _, _)
Below(base, subs, k) == IF k = 0 THEN base ELSE Below(base, subs, k - 1) \o "/" \o subs[k]
DirsRec(v, o) ==
  LET subs == IF v.what = "month" THEN <<ToString(v.y), Pad2(v.m)>> ELSE v.subs
      made == {Below("out", subs, k) : k \in 1..Len(subs)}
  IN Clause("the directory asked for is returned", o.ret = Below("out", subs, Len(subs)))
     \cup Clause("each directory on the way is there, and nothing else changed",
                 IF v.what = "completions" THEN o.list = [k \in 1..Len(subs) |-> Below("out", subs, k)]
                 ELSE Range(o.tree) = made \cup Range(v.before))
(* contents of files are their own names *)
Packed(n) == n \o ".bz2"
RECURSIVE Worlds(_, _)
(* the archive before the k-th act *)
Worlds(acts, k) == IF k = 1 THEN <<>> ELSE LET w == Worlds(acts, k - 1) a == acts[k - 1]
                   IN IF a.a = "ask" THEN w ELSE [n \in DOMAIN w \cup {a.name} |-> IF n = a.name THEN a.a ELSE w[n]]
Has(w, n) == n \in DOMAIN w /\ w[n] # "empty"
AskRec(v, o, k) ==
  LET a == v.acts[k]
      w == Worlds(v.acts, k)
      name(t) == Path(v.tpl[t].dir, v.tpl[t].file, a.y, a.m, a.d)
      missing == None \in {a.y, a.m, a.d}
      there(t) == Has(w, name(t)) \/ Has(w, Packed(name(t)))
      t == IF missing THEN 0 ELSE FirstOf(Len(v.tpl), there)
      r == o.res[k]
      good == {n \in {name(t), Packed(name(t))} : Has(w, n) /\ w[n] # "corrupt"}
  IN IF t = 0 THEN Clause("nothing is returned when no template has a field of the day", r = [got |-> "", at |-> ""])
     ELSE Clause("the field of the day under the first template that has one is returned, whole",
                 IF good = {} THEN r.got = ""
                 ELSE \/ r.got \in good
                      \/ r.got = "" /\ (a.fault # "none" \/ "corrupt" \in {w[n] : n \in {name(t), Packed(name(t))} \cap DOMAIN w}))
          \cup Clause("a plain field is read in place, a packed one from the scratch directory",
                      r.got # "" => r.at = (IF r.got = name(t) THEN "place" ELSE "scratch"))
ArchiveRec(v, o) ==
  (IF Len(o.res) = Len(v.acts) THEN UNION {IF v.acts[k].a = "ask" THEN AskRec(v, o, k) ELSE {} : k \in DOMAIN v.acts} ELSE {"every question is answered"})
  \cup Clause("the archive is only read", o.kept = 1)
(* programs that share the scratch directory *)
RaceRec(v, o) ==
  LET R == o.res
  IN Clause("every call comes to an end", Len(R) = Len(v.acts) /\ "stuck" \notin Range(R))
     \cup Clause("no program is given a part of a field", "part" \notin Range(R))
     \cup Clause("nothing but a failure keeps a field from being returned",
                 \A k \in DOMAIN R : R[k] \in {"none", "raised"} => v.acts[k].a = "fail")
     \cup Clause("a program that may finish is given the whole field",
                 \A k \in DOMAIN R : (v.acts[k].a = "finish" => R[k] \in {"whole", "idle"})
                                  /\ (v.acts[k].a = "start" => R[k] \in {"whole", "pending"}))
Verdict(r) ==
  CASE r.k = "fill" -> FillRec(r.in, r.out)
    [] r.k = "make" -> MakeRec(r.in, r.out)
    [] r.k = "release" -> ReleaseRec(r.in, r.out)
    [] r.k = "stub" -> StubRec(r.in, r.out)
    [] r.k = "ids" -> IdsRec(r.in, r.out)
    [] r.k = "dirs" -> DirsRec(r.in, r.out)
    [] r.k = "archive" -> ArchiveRec(r.in, r.out)
    [] r.k = "race" -> RaceRec(r.in, r.out)
TInit == i = 1
TNext == i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
