-------------------------------- MODULE T_Imma --------------------------------
EXTENDS Imma, TraceBase
VARIABLE i
Got(o, n) == IF n \in DOMAIN o.data THEN o.data[n] ELSE "absent"
Names(atts) == UNION {{Table(atts[k])[j].n : j \in 1..Len(Table(atts[k]))} : k \in 1..Len(atts)}
(* the values of the attachments, as the record tells them *)
Same(o, atts, vals) == \A k \in 1..Len(atts) : \A j \in 1..Len(vals[k]) : Got(o, Table(atts[k])[j].n) = vals[k][j]
VDec(v, o) == LET R == ReadRec(Table, Numbers, v.line, 108)
                  atts == [k \in 1..Len(R) |-> R[k][1]]
                  vals == [k \in 1..Len(R) |-> R[k][2]]
              IN IF Broken(R) THEN Clause("a malformed record is refused", o.exc = 1)
                 ELSE Clause("a well-formed record is read", o.exc = 0)
                      \cup (IF o.exc = 1 THEN {} ELSE
                           Clause("the attachments are found", o.atts = atts)
                      \cup Clause("every field has the value in its columns", o.atts = atts => Same(o, atts, vals))
                      \cup Clause("no other field appears", DOMAIN o.data \subseteq Names(atts)))
VEnc(v, o) == LET line == WriteRec(Table, v.atts, v.xs)
                  vals == [k \in 1..Len(v.atts) |-> [j \in 1..Len(v.xs[k]) |-> Meant(Table(v.atts[k])[j], v.xs[k][j])]]
              IN Clause("the record can be written", o.exc = 0)
                 \cup (IF o.exc = 1 THEN {} ELSE
                      Clause("the line is as documented", o.line = line)
                 \cup Clause("one line", o.lines = 1)
                 \cup Clause("writing changes nothing", o.kept = 1)
                 \cup Clause("reading back gives the same attachments", line # <<>> => o.atts = v.atts)
                 \cup Clause("reading back gives the same values", line # <<>> => Same(o, v.atts, vals)))
(* the short fixed-column form: a field that is no number is missing *)
Simple == <<F("YR",4,1,1), F("MO",2,1,1), F("DY",2,1,1), F("HR",4,100,1), F("LAT",5,100,1), F("LON",6,100,1), F("DS",1,1,1), F("VS",1,1,1),
            F("ID",9,1,3), F("AT",4,10,1), F("SST",4,10,1), F("DPT",4,10,1), F("DCK",3,1,1), F("SID",3,1,1), F("PT",2,1,1), F("UID",6,1,3)>>
Lenient(f, s) == IF f.c = 3 THEN "s" \o Join(s) ELSE LET z == Value(f, s) IN IF z = "bad" THEN "none" ELSE z
VSimple(v, o) == LET O == Offsets(Simple) IN
  Clause("the short form is read", o.exc = 0)
  \cup (IF o.exc = 1 THEN {} ELSE Clause("every field of the short form has the value in its columns",
     \A k \in 1..Len(Simple) : Got(o, Simple[k].n) = Lenient(Simple[k], Part(v.line, O[k], Simple[k].w))))
Verdict(r) == IF r.k = "dec" THEN VDec(r.in, r.out) ELSE IF r.k = "enc" THEN VEnc(r.in, r.out) ELSE VSimple(r.in, r.out)
TInit == i = 1
TNext == i <= NRecs /\ Report(i, Verdict(Recs[i])) /\ Finished(i) /\ i' = i + 1
TraceSpec == TInit /\ [][TNext]_i
=============================================================================
