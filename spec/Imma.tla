--------------------------------- MODULE Imma ---------------------------------
(* Reading and writing of an IMMA1 record.  Text is a sequence of characters.     *)
(* A value is "none", "i" and an integer in units of the field, or "s" and the    *)
(* characters.                                                                     *)
EXTENDS ImmaTables, FiniteSets, TLC
Blank(s) == \A k \in 1..Len(s) : s[k] = " "
Spaces(n) == [k \in 1..n |-> " "]
MinI(a, b) == IF a < b THEN a ELSE b
Part(s, from, n) == SubSeq(s, from, MinI(Len(s), from + n - 1))
Join(s) == LET J[k \in 0..Len(s)] == IF k = 0 THEN "" ELSE J[k - 1] \o s[k] IN J[Len(s)]
LStrip(s) == LET K == {k \in 1..Len(s) : s[k] # " "} IN IF K = {} THEN <<>> ELSE SubSeq(s, CHOOSE m \in K : \A z \in K : m <= z, Len(s))
RStrip(s) == LET K == {k \in 1..Len(s) : s[k] # " "} IN IF K = {} THEN <<>> ELSE SubSeq(s, 1, CHOOSE m \in K : \A z \in K : z <= m)
Alphabet == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Digit36(c) == LET K == {k \in 1..36 : Alphabet[k] = c} IN IF K = {} THEN -1 ELSE (CHOOSE k \in K : TRUE) - 1
IsDigit(c) == LET d == Digit36(c) IN d >= 0 /\ d <= 9
(* ---- numbers *)
Digits(s) == Len(s) > 0 /\ \A k \in 1..Len(s) : IsDigit(s[k])
Magnitude(s) == LET M[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE 10 * M[k - 1] + Digit36(s[k]) IN M[Len(s)]
Parse(s) == LET t == RStrip(LStrip(s))            \* <<is a number, the number>>
                neg == Len(t) > 0 /\ t[1] = "-"
                u == IF Len(t) > 0 /\ t[1] \in {"-", "+"} THEN SubSeq(t, 2, Len(t)) ELSE t
            IN IF Digits(u) THEN <<TRUE, IF neg THEN -Magnitude(u) ELSE Magnitude(u)>> ELSE <<FALSE, 0>>
RECURSIVE Show0(_)
Show0(n) == IF n < 10 THEN <<Alphabet[n + 1]>> ELSE Show0(n \div 10) \o <<Alphabet[(n % 10) + 1]>>
Show(n) == IF n < 0 THEN <<"-">> \o Show0(-n) ELSE Show0(n)
(* ---- one field *)
Value(f, s) == IF Blank(s) THEN "none"
               ELSE CASE f.c = 1 -> IF Parse(s)[1] THEN "i" \o ToString(Parse(s)[2]) ELSE "bad"
                      [] f.c = 2 -> IF Digit36(s[1]) >= 0 THEN "i" \o ToString(Digit36(s[1])) ELSE "bad"
                      [] f.c = 3 -> "s" \o Join(s)
(* x: [k |-> 0 missing, 1 number i, 2 characters s] *)
Meant(f, x) == CASE x.k = 0 -> "none"
                 [] x.k = 1 -> "i" \o ToString(x.i)
                 [] x.k = 2 -> "s" \o Join(x.s \o Spaces(IF f.w = 0 THEN 0 ELSE f.w - Len(x.s)))
Text(f, x) == IF x.k = 0 THEN Spaces(IF f.w = 0 THEN 1 ELSE f.w)
              ELSE IF f.c = 3 THEN x.s \o Spaces(IF f.w = 0 THEN 0 ELSE f.w - Len(x.s))
              ELSE IF f.c = 2 THEN <<Alphabet[x.i + 1]>>
              ELSE Spaces(f.w - Len(Show(x.i))) \o Show(x.i)
(* ---- one attachment, with its table *)
WidthOf(tab) == LET W[k \in 0..Len(tab)] == IF k = 0 THEN 0 ELSE W[k - 1] + tab[k].w IN W[Len(tab)]
Offsets(tab) == LET O[k \in 1..Len(tab)] == IF k = 1 THEN 1 ELSE O[k - 1] + tab[k - 1].w IN O
Values(tab, body) == LET O == Offsets(tab) IN
  [k \in 1..Len(tab) |-> Value(tab[k], Part(body, O[k], IF tab[k].w = 0 THEN Len(body) ELSE tab[k].w))]
Body(tab, xs) == LET B[k \in 0..Len(tab)] == IF k = 0 THEN <<>> ELSE B[k - 1] \o Text(tab[k], xs[k]) IN B[Len(tab)]
Two(s) == Spaces(2 - Len(s)) \o s
LengthText(n) == IF n <= 99 THEN Two(Show(n)) ELSE <<Alphabet[(n \div 36) + 1], Alphabet[(n % 36) + 1]>>
Header(a, body) == IF a = 0 THEN <<>> ELSE Two(Show(a)) \o (IF a = 99 THEN <<" ", "0">> ELSE LengthText(Len(body) + 4))
(* length that a header gives: 0 is "all that is left" *)
LengthOf(s) == IF Blank(s) THEN 0
               ELSE IF Parse(s)[1] THEN Parse(s)[2]
               ELSE IF Digit36(s[1]) >= 0 /\ Digit36(s[2]) >= 0 THEN 36 * Digit36(s[1]) + Digit36(s[2]) ELSE -1
(* ---- a whole record: atts and the values of each *)
WriteRec(tabs(_), atts, xs) ==
  LET R[k \in 0..Len(atts)] == IF k = 0 THEN <<>> ELSE LET b == Body(tabs(atts[k]), xs[k]) IN R[k - 1] \o Header(atts[k], b) \o b
  IN RStrip(R[Len(atts)])
RECURSIVE ReadFrom(_, _, _, _, _)
(* got: << attachment, values >> so far; a, n: the attachment here and the length of its body, 0 for the rest *)
ReadFrom(tabs(_), nums, line, a, n) ==
  LET body == IF n = 0 THEN line ELSE Part(line \o Spaces(n), 1, n)
      rest == IF n = 0 THEN <<>> ELSE SubSeq(line, n + 1, Len(line))
      here == << <<a, Values(tabs(a), body)>> >>
  IN IF Len(rest) = 0 THEN here
     ELSE IF Len(rest) < 4 THEN here \o << <<-1, <<>>>> >>
     ELSE LET h == Parse(SubSeq(rest, 1, 2))
              L == IF h[2] = 8 THEN 102 ELSE LengthOf(SubSeq(rest, 3, 4))
          IN IF ~h[1] \/ h[2] \notin nums \/ L < 0 \/ (L > 0 /\ L <= 4) THEN here \o << <<-1, <<>>>> >>
             ELSE here \o ReadFrom(tabs, nums, SubSeq(rest, 5, Len(rest)), h[2], IF L = 0 THEN 0 ELSE L - 4)
ReadRec(tabs(_), nums, line, core) == IF Len(line) = 0 THEN <<>> ELSE ReadFrom(tabs, nums, line, 0, core)
Broken(got) == \E k \in 1..Len(got) : got[k][1] = -1 \/ \E j \in 1..Len(got[k][2]) : got[k][2][j] = "bad"
=============================================================================
