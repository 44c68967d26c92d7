---------------------------- MODULE MC_Background ----------------------------
(* A drifter reports; the tail check then walks over the record with its two    *)
(* windows, forwards and backwards, and narrows what is left in between.        *)
EXTENDS Background, TLC, Json
CONSTANTS MaxLen, Kinds
Base == [nl |-> 6, ns |-> 6, inter |-> 2, intra |-> 4, lim |-> 4]
P(lw, sw, nb) == [lw |-> lw, sw |-> sw, nbad |-> nb, nl |-> 6, ns |-> 6, inter |-> 2, intra |-> 4, lim |-> 4]
Params == {P(lw, sw, nb) : lw \in {1, 3}, sw \in {1, 2, 3}, nb \in {1, 2}}
Rep(k) == CASE k = "good" -> [el |-> 1, a |-> 1, b |-> 2]
            [] k = "bad" -> [el |-> 1, a |-> -40, b |-> 2]
            [] k = "hot" -> [el |-> 1, a |-> 16, b |-> 2]
            [] k = "day" -> [el |-> 0, a |-> 80, b |-> 2]
            [] k = "vague" -> [el |-> 1, a |-> 40, b |-> 5]
VARIABLES tr, p, phase, k, st, en     \* st: assessed reports in the start tail, en: in the end tail
vars == <<tr, p, phase, k, st, en>>
S == Assessed(tr)
Init == tr = <<>> /\ p \in Params /\ phase = "report" /\ k = 0 /\ st = 0 /\ en = 0
Report == /\ phase = "report" /\ Len(tr) < MaxLen
          /\ \E x \in Kinds : tr' = Append(tr, Rep(x))
          /\ UNCHANGED <<p, phase, k, st, en>>
Begin == /\ phase = "report" /\ Len(tr) >= 1
         /\ phase' = IF Len(S) < p.lw THEN "pass" ELSE "long1"
         /\ k' = 1 /\ UNCHANGED <<tr, p, st, en>>
LongStep(me, next, s, v) ==
  /\ phase = me
  /\ IF k + p.lw - 1 <= Len(s) /\ LongFails(SubSeq(s, k, k + p.lw - 1), p, FALSE)
     THEN /\ k' = k + 1 /\ phase' = me
          /\ IF v = 1 THEN st' = k + p.lw \div 2 /\ UNCHANGED en ELSE en' = k + p.lw \div 2 /\ UNCHANGED st
     ELSE k' = 1 /\ phase' = next /\ UNCHANGED <<st, en>>
  /\ UNCHANGED <<tr, p>>
Long1 == LongStep("long1", "long2", S, 1)
Long2 == LongStep("long2", "pass", Rev(S), 2)
(* what passed the long windows is fixed before the short windows start: remembered in k (negative: nothing left) *)
VARIABLE mid
Pass == /\ phase = "pass"
        /\ IF st + en >= Len(S) THEN phase' = "done" /\ mid' = <<>> ELSE mid' = SubSeq(S, st + 1, Len(S) - en) /\ phase' = "short1"
        /\ k' = 1 /\ UNCHANGED <<tr, p, st, en>>
ShortStep(me, next, s, v) ==
  /\ phase = me
  /\ IF k + p.sw - 1 <= Len(s) /\ ShortFails(SubSeq(s, k, k + p.sw - 1), p)
     THEN /\ k' = k + 1 /\ phase' = me
          /\ LET more == IF k = Len(s) - p.sw + 1 THEN p.sw ELSE 1 IN
             IF v = 1 THEN st' = st + more /\ UNCHANGED en ELSE en' = en + more /\ UNCHANGED st
     ELSE k' = 1 /\ phase' = next /\ UNCHANGED <<st, en>>
  /\ UNCHANGED <<tr, p, mid>>
Short1 == ShortStep("short1", "short2", mid, 1)
Short2 == ShortStep("short2", "done", Rev(mid), 2)
Next == \/ ((Report \/ Begin \/ Long1 \/ Long2) /\ UNCHANGED mid)
        \/ Pass \/ Short1 \/ Short2
CSpec == Init /\ mid = <<>> /\ [][Next]_<<vars, mid>>
Result == IF Len(S) = 0 \/ st + en >= Len(S) THEN <<0, 0>> ELSE <<st, en>>
F == TailFlags(tr, p, FALSE)
WalkIsDefinition == phase = "done" => Result = Tails(S, p, FALSE)
StartIsPrefixEndIsSuffix == phase = "done" =>
  /\ \A i \in F[1] : \A j \in 1..i : j \in F[1]
  /\ \A i \in F[2] : \A j \in i..Len(tr) : j \in F[2]
  /\ F[1] \cap F[2] = {}
SomethingIsLeft == phase = "done" /\ Len(S) > 0 => \E i \in 1..Len(tr) : tr[i].el = 1 /\ i \notin F[1] \cup F[2]
GoodRecordsPass == phase = "done" /\ (\A i \in 1..Len(S) : S[i].a = 1) => F = <<{}, {}>>
BadThroughoutHasNoTails == phase = "done" /\ (\A i \in 1..Len(S) : S[i].a = -40) => F = <<{}, {}>>
(* the check stops at reports whose background is unreliable: none of the kind is inside a tail *)
StopsAtUnreliable == phase = "done" => \A i \in F[1] \cup F[2] : ~(tr[i].el = 1 /\ tr[i].b > p.lim)
TerminatesWell == phase \in {"report", "long1", "long2", "pass", "short1", "short2", "done"}
Q == [neval |-> 3, bias |-> 9, intra |-> 4, inter |-> 2, n |-> 6, nbad |-> 2, lim |-> 4]
R == RecordFlags(tr, Q, FALSE)
LongOrShort == ~((R[1] = 1 \/ R[2] = 1) /\ R[3] = 1)
Emit == (phase = "done" /\ (\E i \in 1..Len(tr) : TRUE)) => PrintT("BEH rec " \o ToJson([tr |-> tr, p |-> p]))
=============================================================================
