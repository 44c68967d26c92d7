------------------------------ MODULE T_Readers -------------------------------
EXTENDS Readers, TraceBase
VARIABLES i, j
In == Recs[i].in
Obs == Recs[i].out.obs
TInit == i = 1 /\ j = 1 /\ RInit
Verdict(o) ==
     Clause("a line that is no record is refused", o.refused = refused')
  \cup Clause("every field is that of the last line", In.kind = "nrt" \/ refused' = 0 => o.rec = shown')
  \cup Clause("the unique identifier tells the line", (refused' = 0 /\ In.lines[j].cols > 0) => o.uid = 1)
  \cup Clause("fields that the source does not have are missing", o.dummies = (IF shown' = Void \/ In.kind # "nrt" THEN o.dummies ELSE 1))
  \cup Clause("a report made of it has the same fields", o.rep = (IF shown' = Void \/ refused' = 1 THEN o.rep ELSE shown'))
TNext ==
  \/ /\ i <= NRecs /\ j <= Len(In.lines)
     /\ (IF In.lines[j].cols = 0 THEN EndOfFile ELSE Read(In.kind, In.lines[j]))
     /\ Report(i, Verdict(Obs[j]))
     /\ j' = j + 1 /\ i' = i
  \/ /\ i <= NRecs /\ j > Len(In.lines)
     /\ Finished(i)
     /\ i' = i + 1 /\ j' = 1 /\ shown' = Void /\ refused' = 0
TraceSpec == TInit /\ [][TNext]_<<shown, refused, i, j>>
=============================================================================
