------------------------------ MODULE Prediction -------------------------------
(* Where a platform will be: it keeps on along the great circle of its last leg *)
(* at the speed of that leg.  track: <<place, minute>>, minute NoTime if it has *)
(* none; places in 1/1000 degree on one meridian circle or on the equator.      *)
EXTENDS Sphere
NoTime == -99999
VARIABLE track
Place(x) == x[1]
When(x) == x[2]
LastOf(s) == s[Len(s)]
Before(s) == s[Len(s) - 1]
Elapsed(s) == IF When(LastOf(s)) = NoTime \/ When(Before(s)) = NoTime THEN 0 ELSE When(LastOf(s)) - When(Before(s))
Stays(s) == Len(s) = 1 \/ Elapsed(s) = 0 \/ SamePlace(Place(Before(s)), Place(LastOf(s)))
Heading(s) == CHOOSE d \in Directions(Place(Before(s)), Place(LastOf(s))) : TRUE
(* travelled from the last report in the time still to pass *)
Far(s, after) == (Arc(Place(Before(s)), Place(LastOf(s))) * (Elapsed(s) + after)) \div Elapsed(s)
Determined(s) == Stays(s) \/ (Exact(Place(Before(s)), Place(LastOf(s))) /\ ~Pole(Place(Before(s)))
                              /\ ~Antipodes(Place(Before(s)), Place(LastOf(s))))
Predicted(s, after) == IF Stays(s) THEN Place(LastOf(s)) ELSE Along(Place(Before(s)), Heading(s), Far(s, after))
Sail(p, t) == track' = Append(track, <<p, t>>)
=============================================================================
