------------------------------ MODULE Identifiers -----------------------------
(* Identifiers shared by many platforms, some only in certain years.            *)
EXTENDS Integers
GenericBy(id, yr) ==
  \/ id \in {"1        ", "58       ", "RIGG     ", "     RIGG", "SHIP     ", "ship     ", "     SHIP", "PLAT     ", "     PLAT",
             "         ", "0120     ", "0204     ", "0205     ", "0206     ", "0207     ", "0208     ", "0209     ",
             "MASKST   ", "MASKSTID ", "MASK     ", "XXXX     ", "/////    ", "<none>"}
  \/ yr \in 1921..1941 /\ id \in {"2        ", "00002    "}
  \/ yr \in 1930..1937 /\ id = "3        "
  \/ yr \in 1934..1954 /\ id \in {"7        ", "00007    "}
(* voyages of the tests start on 28 December of year yr; the year that counts is that of the first report (minutes t) *)
YearAt(yr, t) == IF t >= 5760 THEN yr + 1 ELSE yr
===============================================================================
