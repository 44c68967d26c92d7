------------------------------ MODULE MC_Files -------------------------------
(* An archive into which files arrive under two templates for two days, plain,  *)
(* packed or empty, while background fields are asked for.                      *)
EXTENDS Files, Json
CONSTANTS MaxActs
Days == {1, 2}
Tpl == {1, 2}
Forms == {"plain", "packed", "empty"}
VARIABLES arch,        \* set of [t, d, f]
          ans,         \* [t, d]: the answer to the last question; t = 0 for none
          h
vars == <<arch, ans, h>>
There(a, t, d) == \E x \in a : x.t = t /\ x.d = d /\ x.f # "empty"
Answer(a, d) == FirstOf(2, LAMBDA t : There(a, t, d))
Init == arch = {} /\ ans = [t |-> 0, d |-> 0] /\ h = <<>>
Arrive == \E t \in Tpl, d \in Days, f \in Forms :
            /\ [t |-> t, d |-> d, f |-> f] \notin arch
            /\ (f = "empty" => ~There(arch, t, d))
            /\ arch' = (IF f = "plain" THEN arch \ {[t |-> t, d |-> d, f |-> "empty"]} ELSE arch) \cup {[t |-> t, d |-> d, f |-> f]}
            /\ h' = Append(h, [a |-> f, t |-> t, d |-> d]) /\ UNCHANGED ans
Ask == \E d \in Days : /\ ans' = [t |-> Answer(arch, d), d |-> d]
                       /\ h' = Append(h, [a |-> "ask", t |-> 0, d |-> d]) /\ UNCHANGED arch
Next == Len(h) < MaxActs /\ (Arrive \/ Ask)
Spec == Init /\ [][Next]_vars
(* the answer is a field that is there, of that day, and none before it is *)
Sound == [][(ans' # ans /\ ans'.t # 0) => There(arch, ans'.t, ans'.d) /\ \A t \in 1..(ans'.t - 1) : ~There(arch, t, ans'.d)]_vars
NoneOnly == [][(ans' # ans /\ ans'.t = 0) => \A t \in Tpl : ~There(arch, t, ans'.d)]_vars
(* what arrives only improves an answer, and only of its day *)
Improves == [][\A d \in Days : LET b == Answer(arch, d) n == Answer(arch', d)
                               IN (b # 0 => n # 0 /\ n <= b) /\ (n # b => \E x \in arch' \ arch : x.d = d)]_vars
Emit == (Len(h) = MaxActs /\ h[MaxActs].a = "ask") => PrintT("BEH archive " \o ToJson(h))
(* the laws of names *)
Chars == {"Y", "M", "/"}
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
NoneLeft == \A s \in Texts(6) : LET f == Fill(s, 1985, 7, 9) IN \A k \in 1..(Len(f) - 3) : \E j \in k..(k + 3) : f[j] # "Y" \/ f[k] # "Y"
Ids == UNION {[1..k -> {"A", " "}] : k \in 0..4}
NineLaw == \A a, b \in Ids : (Nine(a) = Nine(b)) <=> (RStrip(a) = RStrip(b))
NineIdem == \A a \in Ids : Nine(Nine(a)) = Nine(a) /\ Len(Nine(a)) = 9
ASSUME NoneLeft /\ NineLaw /\ NineIdem
ReleaseNames == \A y, z \in 2005..2016, v \in {"2.5", "3.0"} : y # z => Release("a", y, 1, v) # Release("a", z, 1, v)
ASSUME ReleaseNames
=============================================================================
