---------------------------- MODULE MC_Humidity -----------------------------
(* Air that warms, cools, moistens and dries by steps, and the laws of its     *)
(* humidity.                                                                   *)
EXTENDS Humidity, TLC, Json
CONSTANTS Step, Low, High, Pressures
MCLow == -400
VARIABLES td, t, p
vars == <<td, t, p>>
Init == td = Low /\ t = Low /\ p \in Pressures
Next == /\ \/ td + Step <= t /\ td' = td + Step /\ t' = t
           \/ t + Step <= High /\ t' = t + Step /\ td' = td
        /\ p' = p
CSpec == Init /\ [][Next]_vars
F == Frozen(td, t, p)
Saturated == td = t => /\ Rel(td, t, p, F) = 1000000 /\ Depression(td, t) = 0 /\ Wet(td, t, p, F) = t * 100
(* the wet bulb lies between dew point and temperature, humidity between 0 and 100 *)
Between == /\ Wet(td, t, p, F) >= td * 100 /\ Wet(td, t, p, F) <= t * 100
           /\ Rel(td, t, p, F) >= 0 /\ Rel(td, t, p, F) <= 1000000
           /\ Spec(Vap(td, p, F), p) >= 0
           /\ Depression(td, t) >= 0
(* more moisture in the same phase: all of them grow *)
Moister == [][(t' = t /\ F' = F) =>
                        /\ Vap(td', p, F) > Vap(td, p, F)
                        /\ Spec(Vap(td', p, F), p) >= Spec(Vap(td, p, F), p)
                        /\ Rel(td', t, p, F) >= Rel(td, t, p, F)]_vars
(* warmer air of the same moisture and phase: relative humidity falls *)
Warmer == [][(td' = td /\ F' = F) => Rel(td, t', p, F) <= Rel(td, t, p, F)]_vars
(* once thawed, air that warms stays thawed *)
Thawed == [][(td' = td /\ ~F) => ~F']_vars
(* over ice there is less vapour, below freezing *)
IceHoldsLess == td < 0 => OverIce(td, p) < OverWater(td, p)
(* the places where it thaws are replayed, and a grid *)
Emit == ((Pseudo(td, t, p) > -300 /\ Pseudo(td, t, p) < 300) \/ (td % (4 * Step) = 0 /\ t % (4 * Step) = 0)) =>
        PrintT("BEH air " \o ToJson([td |-> td, t |-> t, p |-> p]))
=============================================================================
