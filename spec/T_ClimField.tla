----------------------------- MODULE T_ClimField -------------------------------
EXTENDS ClimField, TraceBase
VARIABLE i
Q == 90000
Cell(v, m) == LET r == 180000 \div v.ny IN
   IF m = "mds" THEN <<G!RowM(v.lat, Q, r), G!ColM(v.lon, Q, r)>> ELSE <<G!Row(v.lat, Q, r), G!Col(v.lon, Q, r)>>
Expect(v) == IF v.dy = NoVal \/ ~RealDay(v.mo, v.dy) THEN NoVal
             ELSE LET c == Cell(v, v.how) IN At(Slice(v.n, v.mo, v.dy), c[1], c[2], v.ny)
Look(v, o) == Clause("climatology value (" \o v.via \o ", " \o v.how \o ")", o.v = Expect(v))
(* one climatology asked again and again: what was asked before makes no difference *)
Looks(v, o) == Clause("climatology value after other questions",
     \A k \in 1..Len(v.seq) : o.v[k] = Expect([n |-> v.n, ny |-> v.ny, how |-> v.seq[k].how, lat |-> v.seq[k].lat, lon |-> v.seq[k].lon,
                                                mo |-> v.seq[k].mo, dy |-> v.seq[k].dy]))
File(v, o) ==
     Clause("shape of the climatology read from a file", o.n = v.n /\ o.ny = v.ny)
  \cup Clause("values at the probed places of a climatology read from a file",
         \A k \in 1..Len(v.probe) :
            LET pr == v.probe[k] r == 180000 \div v.ny IN
            o.v[k] = At(pr.t, G!Row(pr.lat, Q, r), G!Col(pr.lon, Q, r), v.ny))
Absent(v, o) == Clause("no file, no value", o.v = NoVal)
Lib(v, o) ==
   LET Last(vv, s) == LET w == {q \in 1..Len(v.ops) : v.ops[q][1] = vv /\ v.ops[q][2] = s}
                      IN IF w = {} THEN Exc ELSE v.ops[CHOOSE q \in w : \A z \in w : z <= q][3]
   IN Clause("library gives the field stored last",
             \A k \in 1..Len(o.got) : o.got[k][3] = Last(o.got[k][1], o.got[k][2]))
Verdict(r) == CASE r.k = "look" -> Look(r.in, r.out)
                [] r.k = "looks" -> Looks(r.in, r.out)
                [] r.k = "file" -> File(r.in, r.out)
                [] r.k = "absent" -> Absent(r.in, r.out)
                [] r.k = "lib" -> Lib(r.in, r.out)
TInit == i = 1
TNext == /\ i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
