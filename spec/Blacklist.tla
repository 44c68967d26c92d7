------------------------------ MODULE Blacklist ------------------------------
(* Which reports are excluded by source, and the platform-type markers.       *)
(* Positions in hundredths of a degree; None = missing.                        *)
EXTENDS Integers, Sequences, FiniteSets
NoVal == -99999
B(x) == IF x THEN 1 ELSE 0
(* regions of deck 732: west, south, east, north in whole degrees *)
Region == << <<-175, 40, -170, 55>>, <<-165, 40, -160, 60>>, <<-145, 40, -140, 50>>,
             <<-140, 30, -135, 40>>, <<-140, 50, -130, 55>>, <<-70, 35, -60, 40>>,
             <<-50, 45, -40, 50>>, <<5, 70, 10, 80>>, <<0, -10, 10, 0>>,
             <<-30, -25, -25, -20>>, <<-60, -50, -55, -45>>, <<75, -20, 80, -15>>,
             <<50, -30, 60, -20>>, <<30, -40, 40, -30>>, <<20, 60, 25, 65>>,
             <<0, -40, 10, -30>>, <<-135, 30, -130, 40>> >>
YearRegions(y) ==
  CASE y = 1958 -> {1, 2, 3, 4, 5, 6, 14, 15}
    [] y = 1959 -> {1, 2, 3, 4, 5, 6, 14, 15}
    [] y = 1960 -> {1, 2, 3, 5, 6, 9, 14, 15}
    [] y = 1961 -> {1, 2, 3, 5, 6, 14, 15, 16}
    [] y = 1962 -> {1, 2, 3, 5, 12, 13, 14, 15, 16}
    [] y = 1963 -> {1, 2, 3, 5, 6, 12, 13, 14, 15, 16}
    [] y = 1964 -> {1, 2, 3, 5, 6, 12, 13, 14, 16}
    [] y = 1965 -> {1, 2, 6, 10, 12, 13, 14, 15, 16}
    [] y = 1966 -> {1, 2, 6, 9, 14, 15, 16}
    [] y = 1967 -> {1, 2, 5, 6, 9, 14, 15}
    [] y = 1968 -> {1, 2, 3, 5, 6, 9, 14, 15}
    [] y = 1969 -> {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16}
    [] y = 1970 -> {1, 2, 3, 4, 5, 6, 8, 9, 14, 15}
    [] y = 1971 -> {1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 16}
    [] y = 1972 -> {4, 7, 8, 9, 10, 11, 13, 16, 17}
    [] y = 1973 -> {4, 7, 8, 10, 11, 13, 16, 17}
    [] y = 1974 -> {4, 7, 8, 10, 11, 16, 17}
    [] OTHER -> {}
Lon180(lon) == IF lon > 18000 THEN lon - 36000 ELSE lon
InBox(lat, lon, w, s, e, n) == w * 100 <= lon /\ lon <= e * 100 /\ s * 100 <= lat /\ lat <= n * 100
InRegion(k, lat, lon) == InBox(lat, lon, Region[k][1], Region[k][2], Region[k][3], Region[k][4])
BadDrifters == {"53521    ", "53522    ", "53566    ", "53567    ", "53568    ", "53571    ", "53578    ", "53580    ",
                "53582    ", "53591    ", "53592    ", "53593    ", "53594    ", "53595    ", "53596    ", "53599    ",
                "53600    ", "53601    ", "53602    ", "53603    ", "53604    ", "53605    ", "53606    ", "53607    ",
                "53608    ", "53609    ", "53901    ", "53902    "}
BadMonth(y, m) == (y = 2005 /\ m \in {11, 12}) \/ (y = 2006 /\ m = 1)

Blacklisted(v) ==
  LET lon == Lon180(v.lon) IN
  \/ v.lat = 0 /\ lon = 0
  \/ v.pt = 13
  \/ v.id = "SUPERIGORINA"
  \/ v.dck = 874
  \/ v.dck = 732 /\ \E k \in YearRegions(v.yr) : InRegion(k, v.lat, lon)
  \/ BadMonth(v.yr, v.mo) /\ v.id \in BadDrifters
WindExcluded(v) == v.dck \in {708, 780}
HumidityExcluded(v) == v.pt \notin {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15}
MatExcluded(v) ==
  LET lon == Lon180(v.lon) IN
  \/ v.pt = 5 /\ v.dck = 780
  \/ /\ v.dck = 193 /\ v.yr \in 1880..1892
     /\ \/ InBox(v.lat, lon, -80, 40, 0, 55)
        \/ InBox(v.lat, lon, -10, 35, 30, 45)
        \/ InBox(v.lat, lon, 15, -10, 45, 40)
        \/ InBox(v.lat, lon, 15, -10, 95, 15)
        \/ InBox(v.lat, lon, 95, -10, 105, 5)
IsBuoy(v) == v.pt \in {6, 7}
IsDrifter(v) == v.pt = 7
IsShip(v) == v.pt \in {0, 1, 2, 3, 4, 5, 10, 11, 12, 17}
Is780(v) == v.dck = 780
=============================================================================
