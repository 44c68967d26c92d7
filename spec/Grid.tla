-------------------------------- MODULE Grid ---------------------------------
(* Regular latitude-longitude grids.  H is the half height of the world (90   *)
(* degrees in the chosen unit), so its width is 4H; r is the cell size.  Rows  *)
(* are counted from the north, columns from the west.                          *)
(* What "the cell contains the position" means is stated as a relation, once   *)
(* for each convention about positions on the border of two cells.             *)
EXTENDS Integers
NRows(H, r) == (2 * H) \div r
NCols(H, r) == (4 * H) \div r
North(k, H, r) == H - k * r          \* northern border of row k
South(k, H, r) == H - (k + 1) * r
West(k, H, r) == k * r - 2 * H
East(k, H, r) == (k + 1) * r - 2 * H
(* rows: borders go south; the south pole belongs to the last row *)
InRow(k, lat, H, r) == /\ k \in 0..(NRows(H, r) - 1)
                       /\ \/ South(k, H, r) < lat /\ lat <= North(k, H, r)
                          \/ lat = -H /\ k = NRows(H, r) - 1
(* rows, second convention: borders go towards the nearer pole, 0 goes south *)
InRowM(k, lat, H, r) == /\ k \in 0..(NRows(H, r) - 1)
                        /\ \/ lat > 0 /\ lat < H /\ South(k, H, r) <= lat /\ lat < North(k, H, r)
                           \/ lat <= 0 /\ lat > -H /\ South(k, H, r) < lat /\ lat <= North(k, H, r)
                           \/ lat = H /\ k = 0
                           \/ lat = -H /\ k = NRows(H, r) - 1
(* longitude in [-2H, 2H) *)
Norm(lon, H) == ((lon + 2 * H) % (4 * H)) - 2 * H
(* columns: borders go east; the dateline starts column 0 *)
InCol(k, lon, H, r) == k \in 0..(NCols(H, r) - 1) /\ West(k, H, r) <= Norm(lon, H) /\ Norm(lon, H) < East(k, H, r)
(* columns, second convention (-2H..2H): borders go away from 0, which goes west *)
InColM(k, lon, H, r) == /\ k \in 0..(NCols(H, r) - 1)
                        /\ \/ lon > 0 /\ lon < 2 * H /\ West(k, H, r) <= lon /\ lon < East(k, H, r)
                           \/ lon <= 0 /\ lon > -2 * H /\ West(k, H, r) < lon /\ lon <= East(k, H, r)
                           \/ lon = 2 * H /\ k = NCols(H, r) - 1
                           \/ lon = -2 * H /\ k = 0
(* the same cells, computed *)
Row(lat, H, r) == IF lat = -H THEN NRows(H, r) - 1 ELSE (H - lat) \div r
RowM(lat, H, r) == IF lat > 0 THEN (IF lat = H THEN 0 ELSE NRows(H, r) \div 2 - 1 - lat \div r)
                   ELSE Row(lat, H, r)
Col(lon, H, r) == (Norm(lon, H) + 2 * H) \div r
ColM(lon, H, r) == IF lon > 0 THEN (IF lon = 2 * H THEN NCols(H, r) - 1 ELSE (lon + 2 * H) \div r)
                   ELSE IF lon = -2 * H THEN 0 ELSE NCols(H, r) - 1 - ((2 * H - lon) \div r)
(* twice the centre of a row or column *)
RowCentre2(k, H, r) == 2 * H - (2 * k + 1) * r
ColCentre2(k, H, r) == (2 * k + 1) * r - 4 * H
=============================================================================
