---------------------------- MODULE MC_ReportTime ----------------------------
EXTENDS ReportTime, TLC, Json
CONSTANTS Depth
VARIABLE hist
Starts == { [YR |-> 2004, MO |-> 2, DY |-> 29, HR |-> 276000],
            [YR |-> 1899, MO |-> 12, DY |-> 31, HR |-> NoVal],
            [YR |-> 2003, MO |-> 13, DY |-> 0, HR |-> 300100] }
Vals(n) == CASE n = "YR" -> {2000, 1900, NoVal, 0} [] n = "MO" -> {2, 4, 0, 13, NoVal}
             [] n = "DY" -> {29, 31, 0, NoVal} [] n = "HR" -> {0, 287999, 288000, -2, 199, NoVal}
MInit == \E f \in Starts : RInit(f) /\ hist = <<[n |-> "", v |-> 0, f |-> f]>>
MNext == /\ Len(hist) <= Depth
         /\ \E n \in Names : \E v \in Vals(n) : SetField(n, v) /\ hist' = Append(hist, [n |-> n, v |-> v])
MSpec == MInit /\ [][MNext]_<<fields, dt, hist>>
Emit == Len(hist) = Depth + 1 => PrintT("BEH rtime " \o ToJson(hist))
=============================================================================
