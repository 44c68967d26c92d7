------------------------------ MODULE MC_Drifter -----------------------------
(* A drifter reports along its way; the checks walk along its record.  The walk *)
(* is proved to give what the definitions say.                                  *)
EXTENDS Drifter, TLC, Json, FiniteSets
CONSTANTS MaxLen, Steps, Places
Params == {[sw |-> w, minw |-> 32, maxw |-> m, new |-> n] : w \in {1, 3}, m \in {32, 64}, n \in {0, 1}}
VARIABLES tr, p, k, since, done
vars == <<tr, p, k, since, done>>
Init == /\ tr = <<[t |-> 0, y |-> 1000, x |-> 17999]>> /\ p \in {q \in Params : q.new = 0 \/ q.maxw = 32}
        /\ k = 0 /\ since = 0 /\ done = 0
Report == /\ k = 0 /\ Len(tr) < MaxLen
          /\ \E dt \in Steps, x \in Places : tr' = Append(tr, [t |-> tr[Len(tr)].t + dt, y |-> 1000, x |-> IF x > 18000 THEN x - 36000 ELSE x])
          /\ UNCHANGED <<p, k, since, done>>
S == Smooth(tr, p.sw)
Begin == /\ k = 0 /\ Len(tr) = MaxLen /\ k' = 1 /\ UNCHANGED <<tr, p, since, done>>
Walk == /\ k > 0 /\ done = 0 /\ Len(tr) > p.sw
        /\ IF k > Len(S) \/ S[Len(S)].t - S[k].t < p.minw THEN done' = 1 /\ UNCHANGED <<k, since>>
           ELSE /\ since' = IF Target(S, k, p) = 0 THEN since
                            ELSE IF StillAt(S, k, p, 0) THEN (IF since = 0 THEN k ELSE since) ELSE 0
                /\ k' = k + 1 /\ UNCHANGED done
        /\ UNCHANGED <<tr, p>>
Next == Report \/ Begin \/ Walk
CSpec == Init /\ [][Next]_vars
WalkIsDefinition == done = 1 => since = AgroundFrom(S, p, 0)
F == AgroundFlags(tr, p, 0)
FlagsAreASuffix == k = 1 => (F = {} \/ (Len(tr) \in F /\ \A j \in F : \A i \in j..Len(tr) : i \in F))
(* still moving at its end: the last position that can be assessed is *)
MovingAtEndIsFree == (k = 1 /\ Len(tr) > p.sw /\ Evaluable(S, p) # {} /\ ~StillAt(S, Max(Evaluable(S, p)), p, 0)) => F = {}
TooShortIsFree == k = 1 /\ Len(tr) <= p.sw => F = {}
NeverMovedIsAground == k = 1 /\ (\A i \in 1..Len(tr) : tr[i].x = tr[1].x) /\ Len(tr) > p.sw /\ Evaluable(S, p) # {} => Len(tr) \in F
(* speed: every flagged report is within a fast stretch; fast: over a hundredth of a degree per half day, for instance *)
Fast(i, j) == tr[j].t > tr[i].t /\ AbsD(Turn36(tr[j].x - tr[i].x)) * 16 > tr[j].t - tr[i].t
G == SpeedFlags(tr, p, {}, Fast)
StretchesInWindow == k = 1 => \A i \in 1..Len(tr) : LET j == Stretch(tr, i, p, {}) IN
  j # 0 => tr[j].t - tr[i].t >= p.minw /\ (p.new = 1 \/ tr[j].t - tr[i].t <= p.maxw)
NeverMovedIsNotFast == k = 1 /\ (\A i \in 1..Len(tr) : tr[i].x = tr[1].x) => G = {}
Emit == (k = 1 /\ done = 0 /\ since = 0) => PrintT("BEH drift " \o ToJson([tr |-> tr, p |-> p]))
=============================================================================
