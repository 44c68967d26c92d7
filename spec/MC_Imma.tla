-------------------------------- MODULE MC_Imma --------------------------------
(* A record is filled attachment by attachment, written as a line, and read back.  *)
EXTENDS Imma, Json
CONSTANTS Choice, MaxAtts
(* small tables with every kind of field, and the real ones *)
Core == <<F("A",2,1,1), F("B",3,10,1), F("C",2,1,3)>>
Small == <<F("D",1,1,2), F("E",3,1,1)>>
Uid == <<F("G",2,1,3)>>
Big == <<F("H",98,1,3)>>
Rest == <<F("I",1,1,1), F("J",0,1,3)>>
Tab(a) == CASE a = 0 -> Core [] a = 1 -> Small [] a = 98 -> Uid [] a = 8 -> Big [] a = 99 -> Rest
None == [k |-> 0]
Num(i) == [k |-> 1, i |-> i]
Str(s) == [k |-> 2, s |-> s]
(* values of a field: missing, widest, negative, with blanks inside *)
Fill(f) == CASE f.w = 0 -> {None, Str(<<"9", " ", "0">>)}
             [] f.c = 1 /\ f.w = 1 -> {None, Num(9)}
             [] f.c = 1 /\ f.w = 2 -> {None, Num(-7), Num(40)}
             [] f.c = 1 -> {None, Num(-99), Num(0), Num(999)}
             [] f.c = 2 -> {None, Num(0), Num(35)}
             [] f.w = 98 -> {None, Str(<<"X">>)}
             [] OTHER -> {None, Str(<<"Z">>), Str(<<" ", "9">>)}
Fills(a) == LET t == Tab(a) IN CASE Len(t) = 1 -> {<<x>> : x \in Fill(t[1])}
                                [] Len(t) = 2 -> {<<x, y>> : x \in Fill(t[1]), y \in Fill(t[2])}
                                [] Len(t) = 3 -> {<<x, y, z>> : x \in Fill(t[1]), y \in Fill(t[2]), z \in Fill(t[3])}
VARIABLES atts, xs, line, phase, rest, got, next
vars == <<atts, xs, line, phase, rest, got, next>>
Init == atts = <<0>> /\ xs \in {<<v>> : v \in Fills(0)} /\ line = <<>> /\ phase = "fill" /\ rest = <<>> /\ got = <<>> /\ next = <<0, 0>>
Attach == /\ phase = "fill" /\ Len(atts) < MaxAtts /\ atts[Len(atts)] # 99
          /\ \E a \in Choice : /\ \A k \in 1..Len(atts) : atts[k] # a
                               /\ atts' = Append(atts, a) /\ \E v \in Fills(a) : xs' = Append(xs, v)
          /\ UNCHANGED <<line, phase, rest, got, next>>
Write == /\ phase = "fill" /\ line' = WriteRec(Tab, atts, xs) /\ phase' = IF line' = <<>> THEN "done" ELSE "read"
         /\ rest' = line' /\ next' = <<0, WidthOf(Core)>> /\ UNCHANGED <<atts, xs, got>>
(* one attachment: next is its number and the length of its body *)
Read == /\ phase = "read"
        /\ LET n == next[2]
               body == IF n = 0 THEN rest ELSE Part(rest \o Spaces(n), 1, n)
               left == IF n = 0 THEN <<>> ELSE SubSeq(rest, n + 1, Len(rest))
           IN /\ got' = Append(got, <<next[1], Values(Tab(next[1]), body)>>)
              /\ IF left = <<>> THEN phase' = "done" /\ UNCHANGED <<next, rest>>
                 ELSE /\ phase' = "read" /\ rest' = SubSeq(left, 5, Len(left))
                      /\ LET L == LengthOf(SubSeq(left, 3, 4)) IN next' = <<Parse(SubSeq(left, 1, 2))[2], IF L = 0 THEN 0 ELSE L - 4>>
        /\ UNCHANGED <<atts, xs, line>>
Next == Attach \/ Write \/ Read
CSpec == Init /\ [][Next]_vars
Expected == [k \in 1..Len(atts) |-> <<atts[k], [j \in 1..Len(xs[k]) |-> Meant(Tab(atts[k])[j], xs[k][j])]>>]
RoundTrip == phase = "done" /\ line # <<>> => got = Expected
ReaderIsDefinition == phase = "done" => got = ReadRec(Tab, {0, 1, 8, 98, 99}, line, WidthOf(Core))
NoTrailingBlank == line # <<>> => line[Len(line)] # " "
Uniform(v) == \A a, b \in 1..Len(v) : (v[a].k = 0) = (v[b].k = 0)
Emit == phase = "read" /\ rest = line /\ (\A k \in 1..Len(xs) : Uniform(xs[k])) =>
  PrintT("BEH rec " \o ToJson([atts |-> atts, full |-> [k \in 1..Len(atts) |-> IF xs[k][1].k = 0 THEN 0 ELSE 1]]))
=============================================================================
