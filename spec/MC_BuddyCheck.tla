----------------------------- MODULE MC_BuddyCheck ----------------------------
(* All collections of three reports from cells that are neighbours, near and    *)
(* far, and the flags a check gives them.                                       *)
EXTENDS BuddyCheck, TLC, Json
CONSTANTS Last, Anoms
P == [lims |-> << <<1, 1, 2>>, <<2, 2, 4>> >>, thr |-> << <<0, 1>>, <<0>> >>, mult |-> << <<4, 2>>, <<8>> >>, n |-> 1,
      blim |-> <<2, 2, 4>>, sm |-> 2, ns |-> 3, pa |-> 5, pb |-> 100, q |-> 1, rh |-> 64]
Cells == {<<0, 90, 0>>, <<359, 91, 72>>, <<2, 88, 3>>}
VARIABLE done
mv == <<cells, deck, flag, done>>
MInit == BCInit /\ done = 0
MNext == \/ done = 0 /\ Len(deck) < Last /\ UNCHANGED done
            /\ \E c \in Cells, a \in Anoms, e \in {0, 1} :
                 /\ (c = <<0, 90, 0>>) \/ (deck # <<>>)
                 /\ (e = 1) \/ (a = CHOOSE m \in Anoms : \A o \in Anoms : m >= o)
                 /\ AddRep([c |-> c, an |-> a, el |-> e])
         \/ done = 0 /\ Len(deck) = Last /\ Check(P) /\ done' = 1
         \/ done = 0 /\ Len(deck) = Last /\ BayesCheck(P) /\ done' = 2
MSpec == MInit /\ [][MNext]_mv
Drop(k) == SelectSeq([j \in 1..Len(deck) |-> IF j = k THEN [deck[j] EXCEPT !.an = 9999] ELSE deck[j]], LAMBDA x : x.an # 9999)
(* a report that does not pass has no part in it *)
Cleared == done # 0 => \A k \in 1..Len(deck) : deck[k].el = 0 => flag[k] = 0 /\ World(deck) = World(Drop(k))
(* the flag is a function of the collection, not of its order *)
Rev == [k \in 1..Len(deck) |-> deck[Len(deck) + 1 - k]]
Ordered == done # 0 => World(Rev) = World(deck)
(* alone, a report is not rejected *)
Alone == \A k \in 1..Len(deck) : deck[k].el = 1 /\ (\A j \in 1..Len(deck) : j = k \/ deck[j].el = 0 \/ deck[j].c = deck[k].c)
          => (done = 1 => flag[k] = 0) /\ (done = 2 => flag[k] = 0)
(* further out is never less suspect *)
Further == done = 2 => \A k \in 1..Len(deck) : deck[k].el = 1 =>
   LET g == World(deck) S == Neighbours(g, deck[k].c, P.blim, Widen) IN
   S # {} /\ SumMeans(g, S) = 0 => \A a \in {0, 4, 16, 32, 48} : Gross(g, [deck[k] EXCEPT !.an = a], P) <= Gross(g, [deck[k] EXCEPT !.an = a + 16], P)
(* and a larger prior never makes it less so *)
Prior == done = 2 => \A k \in 1..Len(deck) : deck[k].el = 1 =>
   \A a \in {0, 1, 5, 50, 90} : Gross(World(deck), deck[k], [P EXCEPT !.pa = a]) <= Gross(World(deck), deck[k], [P EXCEPT !.pa = a + 10])
Range == done = 2 => \A k \in 1..Len(deck) : flag[k] \in 0..9
Emit == done = 1 => PrintT("BEH deck " \o ToJson(deck))
===============================================================================
