------------------------------- MODULE T_Deck --------------------------------
(* Trace specification for Deck: each record is one history of calls on one   *)
(* deck, with what the deck showed after every call.                           *)
EXTENDS Deck, TraceBase
VARIABLES i, j
tvars == <<reps, flags, filt, parts, i, j>>

Ops == Recs[i].in.ops
Obs == Recs[i].out.obs
AllFlags == Recs[i].in.watch       \* the <<type, name>> pairs that are observed

TInit == DInit /\ i = 1 /\ j = 1

Rep(u) == LET all == RangeOf(reps) IN CHOOSE r \in all : r.u = u
Known(us) == \A k \in 1..Len(us) : \E r \in RangeOf(reps) : r.u = us[k]
Step(o, b) ==
  CASE o.op = "append" -> Append1(o.r)
    [] o.op = "sort"   -> IF /\ Known(b.reps) /\ Len(b.reps) = Len(reps)
                             /\ Sorted([k \in 1..Len(reps) |-> Rep(b.reps[k])])
                             /\ Permutation(reps, [k \in 1..Len(reps) |-> Rep(b.reps[k])])
                          THEN SortTo([k \in 1..Len(reps) |-> Rep(b.reps[k])])
                          ELSE /\ Report(i, {"sorting does not put the same reports into identifier-then-time order"})
                               /\ UNCHANGED dvars
    [] o.op = "pop"    -> PopAt(o.p)
    [] o.op = "rename" -> Rename(o.p, o.id, o.t)
    [] o.op = "flag"   -> SetFlag(o.p, o.t, o.n, o.v)
    [] o.op = "all"    -> SetAll(o.t, o.n, o.v)
    [] o.op = "filter" -> SetFilter(o.f)
    [] o.op = "split"  -> Split(o.f)

PlatObs(b) == {<<b.plat[k][1], b.plat[k][2]>> : k \in {k \in 1..Len(b.plat) : b.plat[k][2] # <<>>}}
NonEmpty(b) == Cardinality({k \in 1..Len(b.plat) : b.plat[k][2] # <<>>})
Verdict(b) ==
     Clause("the reports held, in order", b.reps = UidsOf(reps'))
  \cup Clause("size", b.n = Len(reps'))
  \cup Clause("each report held that passes the filter is in exactly one platform, its own",
              b.seen = 1 =>
              (PlatObs(b) = Platforms(reps', flags', filt') /\ NonEmpty(b) = Cardinality(Platforms(reps', flags', filt'))))
  \cup Clause("filter passes exactly when every condition is met",
              b.pass = [k \in 1..Len(reps') |-> IF PassesF(flags', filt', reps'[k]) THEN 0 ELSE 1])
  \cup Clause("flags read back", b.flags = [k \in 1..Len(reps') |->
              [m \in 1..Len(AllFlags) |-> Flag(flags', reps'[k].u, AllFlags[m][1], AllFlags[m][2])]])
  \cup Clause("split gives the passing and the failing reports, in order",
              b.p = UidsOf(parts'.p) /\ b.f = UidsOf(parts'.f))
  \cup Clause("platforms of the split parts",
              b.seen = 1 =>
              /\ {<<b.pplat[k][1], b.pplat[k][2]>> : k \in 1..Len(b.pplat)} = Platforms(parts'.p, flags', <<>>)
              /\ {<<b.fplat[k][1], b.fplat[k][2]>> : k \in 1..Len(b.fplat)} = Platforms(parts'.f, flags', <<>>))
  \cup Clause("what pop returns", b.popped = IF Ops[j].op = "pop" THEN reps[Ops[j].p].u ELSE 0)

TNext ==
  \/ /\ i <= NRecs /\ j <= Len(Ops)
     /\ Step(Ops[j], Obs[j])
     /\ Report(i, Verdict(Obs[j]))
     /\ j' = j + 1 /\ i' = i
  \/ /\ i <= NRecs /\ j > Len(Ops)
     /\ Finished(i)
     /\ i' = i + 1 /\ j' = 1
     /\ reps' = <<>> /\ flags' = <<>> /\ filt' = <<>> /\ parts' = [p |-> <<>>, f |-> <<>>]
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
