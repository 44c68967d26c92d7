---------------------------- MODULE MC_Averages -----------------------------
(* A sample that grows value by value, and the laws of its averages.           *)
EXTENDS Averages, TLC, Json
CONSTANTS Values, MaxLen, Trims
VARIABLE s
Init == s = <<>>
Next == \E x \in Values : Len(s) < MaxLen /\ s' = Append(s, x)
Spec == Init /\ [][Next]_s
Lo == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A j \in DOMAIN s : x <= s[j]
Hi == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A j \in DOMAIN s : x >= s[j]
Within(a) == a[1] >= Lo * a[2] /\ a[1] <= Hi * a[2]
Same(a, b) == a[1] * b[2] = b[1] * a[2]
Some(t) == Left(s, t) # <<>>
InRange == s # <<>> => /\ Within(Winsorised(s)) /\ \A t \in Trims : Some(t) => Within(Trimmed(s, t))
Ordered == \A i \in 1..(Len(s) - 1) : Sorted(s)[i] <= Sorted(s)[i + 1]
(* any two neighbours exchanged: the same averages *)
Swap(i) == [j \in DOMAIN s |-> IF j = i THEN s[i + 1] ELSE IF j = i + 1 THEN s[i] ELSE s[j]]
AnyOrder == \A i \in 1..(Len(s) - 1) : /\ Winsorised(Swap(i)) = Winsorised(s)
                                       /\ \A t \in Trims : Trimmed(Swap(i), t) = Trimmed(s, t) /\ Spread(Swap(i), t) = Spread(s, t)
NothingToTrim == s # <<>> => /\ Len(s) < 4 => Same(Winsorised(s), Plain(s))
                             /\ \A t \in Trims : Cut(Len(s), t) = 0 => Same(Trimmed(s, t), Plain(s))
(* an extreme value within the part that does not count may be as far out as it likes *)
Far(i, d) == [j \in DOMAIN s |-> IF j = i THEN s[i] + d ELSE s[j]]
Resistant ==
  \A i \in DOMAIN s :
    /\ s[i] = Hi => /\ Len(s) >= 4 => Winsorised(Far(i, 100)) = Winsorised(s)
                    /\ \A t \in Trims : Cut(Len(s), t) > 0 => Trimmed(Far(i, 100), t) = Trimmed(s, t) /\ Spread(Far(i, 100), t) = Spread(s, t)
    /\ s[i] = Lo => /\ Len(s) >= 4 => Winsorised(Far(i, -100)) = Winsorised(s)
                    /\ \A t \in Trims : Cut(Len(s), t) > 0 => Trimmed(Far(i, -100), t) = Trimmed(s, t)
SpreadPositive == \A t \in Trims : Some(t) => Spread(s, t)[1] >= 0
(* more neighbours never loosen a table that falls *)
Falling == \A n \in 0..7 : Multiplier(n, <<0, 3, 5>>, <<3900, 3000, 1000>>) >= Multiplier(n + 1, <<0, 3, 5>>, <<3900, 3000, 1000>>)
Emit == s # <<>> => PrintT("BEH sample " \o ToJson(s))
=============================================================================
