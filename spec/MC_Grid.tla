------------------------------- MODULE MC_Grid --------------------------------
(* Small worlds: every position, every cell size that divides a quadrant.      *)
EXTENDS Grid, FiniteSets, TLC
CONSTANTS MaxH
VARIABLE p
MInit == p \in {[H |-> h, r |-> r, lat |-> a, lon |-> b] :
                h \in 1..MaxH, r \in 1..MaxH, a \in -MaxH..MaxH, b \in (-2 * MaxH)..(4 * MaxH)}
Good == p.H % p.r = 0 /\ p.lat >= -p.H /\ p.lat <= p.H /\ p.lon >= -2 * p.H /\ p.lon <= 4 * p.H
MNext == UNCHANGED p
MSpec == MInit /\ [][MNext]_p
Rows == -1..NRows(p.H, p.r)
Cols == -1..NCols(p.H, p.r)
One(S) == Cardinality(S) = 1
Partition == Good =>
   /\ {k \in Rows : InRow(k, p.lat, p.H, p.r)} = {Row(p.lat, p.H, p.r)}
   /\ {k \in Rows : InRowM(k, p.lat, p.H, p.r)} = {RowM(p.lat, p.H, p.r)}
   /\ {k \in Cols : InCol(k, p.lon, p.H, p.r)} = {Col(p.lon, p.H, p.r)}
   /\ p.lon <= 2 * p.H => {k \in Cols : InColM(k, p.lon, p.H, p.r)} = {ColM(p.lon, p.H, p.r)}
SameCell == Good /\ p.lon >= 2 * p.H => Col(p.lon, p.H, p.r) = Col(p.lon - 4 * p.H, p.H, p.r)
CentreBack == Good /\ p.r % 2 = 0 =>
   /\ LET k == Row(p.lat, p.H, p.r) IN Row(RowCentre2(k, p.H, p.r) \div 2, p.H, p.r) = k
                                       /\ RowM(RowCentre2(k, p.H, p.r) \div 2, p.H, p.r) = k
   /\ LET k == Col(p.lon, p.H, p.r) IN Col(ColCentre2(k, p.H, p.r) \div 2, p.H, p.r) = k
                                       /\ ColM(ColCentre2(k, p.H, p.r) \div 2, p.H, p.r) = k
(* the two conventions differ only on borders *)
AgreeInside == Good /\ p.lat % p.r # 0 => RowM(p.lat, p.H, p.r) = Row(p.lat, p.H, p.r)
AgreeInsideC == Good /\ p.lon <= 2 * p.H /\ p.lon % p.r # 0 => ColM(p.lon, p.H, p.r) = Col(p.lon, p.H, p.r)
=============================================================================
