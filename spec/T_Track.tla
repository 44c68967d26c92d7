-------------------------------- MODULE T_Track -------------------------------
EXTENDS Track, Identifiers, TraceBase
VARIABLE i
Comps(v, o) == IF v.line = 1 THEN LineComps(v.reps) ELSE o.c
N(v) == Len(v.reps)
Year(v) == IF N(v) = 0 THEN v.yr ELSE YearAt(v.yr, v.reps[1].t)
OldDeck(v) == v.dck = 720 /\ Year(v) < 1891
Free(v) == GenericBy(v.id, Year(v)) \/ (v.how = "track" /\ v.pt \in {6, 7})
(* the full check repeats the pass on what is left, at most five times *)
Pick(r, S) == SelectSeq([k \in 1..Len(r) |-> <<k, r[k]>>], LAMBDA q : q[1] \in S)
RECURSIVE Full(_, _, _, _, _)
Full(r, S, p, n, e) ==
  LET z == Pick(r, S)
      F == IF Len(z) < 3 THEN {} ELSE Flags(LineComps([k \in 1..Len(z) |-> z[k][2]]), p, e)
      out == {z[k][1] : k \in F}
  IN IF out = {} \/ n = 1 THEN out ELSE out \cup Full(r, S \ out, p, n - 1, e)
Want(v, o, e) == IF N(v) < 3 \/ Free(v) THEN {}
                 ELSE IF v.how = "full" THEN Full(v.reps, 1..N(v), v.p, 5, e) ELSE Flags(Comps(v, o), v.p, e)
Few(v) == IF N(v) < 3 /\ ~Free(v) /\ ~OldDeck(v) THEN 1 ELSE 0
Set(f) == {k \in 1..Len(f) : f[k] = 1}
Near(a, b) == (a = No /\ b = No) \/ (a # No /\ b # No /\ AbsV(a - b) <= 5 + AbsV(b) \div 4000)
NearComp(x, y) == Near(x.sp, y.sp) /\ Near(x.alt, y.alt) /\ (x.crs = y.crs) /\ Near(x.el, y.el) /\ x.vs = y.vs /\ x.ds = y.ds
                  /\ Near(x.fwd, y.fwd) /\ Near(x.rev, y.rev) /\ Near(x.mid, y.mid)
Verdict(v, o) ==
  LET lo == Want(v, o, -1) hi == Want(v, o, 1) mi == Want(v, o, 0) IN
     Clause("exactly the reports that break the rules are flagged", lo = hi /\ mi = lo => Set(o.trk) = mi)
  \cup Clause("every report has the flag, 0 or 1", Len(o.trk) = N(v) /\ \A k \in 1..N(v) : o.trk[k] \in {0, 1})
  \cup Clause("the ends are never flagged", Set(o.trk) \cap {1, N(v)} = {})
  \cup Clause("marked as too few", v.how = "full" \/ (v.how = "mds" /\ Free(v)) \/ \A k \in 1..N(v) : o.few[k] = Few(v))
  \cup Clause("speeds, courses and estimates along the track",
         v.line = 1 /\ N(v) >= 3 /\ v.how # "full" /\ ~Free(v) => \A k \in 1..N(v) : NearComp(o.c[k], LineComps(v.reps)[k]))
  \cup Clause("nothing else changes", o.rest = 1)
(* limits from the modal speed, speeds in knots in eighths *)
ModeV(v, o) ==
  LET cnt(b) == Cardinality({k \in 2..Len(v.s) : (LET q == v.s[k] \div 24 IN IF q > 11 THEN 11 ELSE q) = b})
      b == CHOOSE a \in 0..11 : \A c \in 0..11 : cnt(a) > cnt(c) \/ (cnt(a) = cnt(c) /\ a <= c)
      mode == IF Len(v.s) < 2 THEN No ELSE IF b <= 2 THEN 850 ELSE 300 * b + 150      \* 1/100 knots
  IN Clause("modal speed", o.mode = mode)
  \cup Clause("speed limits", IF mode = No \/ mode <= 851 THEN o.lim = <<1500, 2000, 0>> ELSE o.lim = <<(mode * 5) \div 4, 3000, (mode * 3) \div 4>>)
(* the single tests; knots in sixteenths, degrees, minutes, metres *)
Test(v, o) ==
     Clause("continuity of direction", o.dir = IF v.d1 # No /\ v.d2 # No /\ v.c # No /\ (Turn(v.d1 * 100, v.c * 100) > 100 * v.pd \/ Turn(v.d2 * 100, v.c * 100) > 100 * v.pd) THEN 10 ELSE 0)
  \cup Clause("continuity of speed", o.spd = IF v.v1 # No /\ v.v2 # No /\ v.s # No /\ AbsV(v.v1 - v.s) > v.ps /\ AbsV(v.v2 - v.s) > v.ps THEN 10 ELSE 0)
  \cup Clause("distance from estimate", o.est = IF v.v1 > 0 /\ v.v2 > 0 /\ v.t > 0 /\ v.f # No /\ v.r # No
         /\ 2 * v.f > (v.v1 + v.v2) * v.t /\ 2 * v.r > (v.v1 + v.v2) * v.t THEN 10 ELSE 0)
TInit == i = 1 /\ clash = {} /\ removed = {} /\ track = <<>>
TNext == /\ i <= NRecs /\ Report(i, IF Recs[i].k = "test" THEN Test(Recs[i].in, Recs[i].out) ELSE IF Recs[i].k = "mode" THEN ModeV(Recs[i].in, Recs[i].out) ELSE Verdict(Recs[i].in, Recs[i].out))
         /\ Finished(i) /\ i' = i + 1 /\ UNCHANGED <<clash, removed, track>>
TraceSpec == TInit /\ [][TNext]_<<i, clash, removed, track>>
===============================================================================
