------------------------------- MODULE MC_Deck -------------------------------
(* Exhaustive exploration of Deck with small constants; every complete        *)
(* history is printed, and replayed into the real code by the harness.        *)
EXTENDS Deck, TLC, Json
CONSTANTS Depth
VARIABLE hist
mvars == <<reps, flags, filt, parts, hist>>

Pool == { [u |-> 1, id |-> 2, t |-> 30], [u |-> 2, id |-> 1, t |-> 20], [u |-> 3, id |-> 2, t |-> 10] }
F1 == << [t |-> "SST", n |-> "x", v |-> 0] >>
Filters == { <<>>, F1 }

SortPick(s) == CHOOSE z \in [1..Len(s) -> RangeOf(s)] : Permutation(s, z) /\ Sorted(z)
H(a) == Len(hist) < Depth /\ hist' = Append(hist, a)

MInit == DInit /\ hist = <<>>
AppendR == \E r \in Pool : /\ \A k \in 1..Len(hist) : ~(hist[k].op = "append" /\ hist[k].r.u = r.u)
                           /\ H([op |-> "append", r |-> r]) /\ Append1(r)
SortR == reps # <<>> /\ H([op |-> "sort"]) /\ SortTo(SortPick(reps))
PopR == \E p \in {1, Len(reps)} : p >= 1 /\ H([op |-> "pop", p |-> p]) /\ PopAt(p)
FlagR == \E p \in 1..Len(reps) : H([op |-> "flag", p |-> p, t |-> "SST", n |-> "x", v |-> 0]) /\ SetFlag(p, "SST", "x", 0)
AllR == reps # <<>> /\ H([op |-> "all", t |-> "SST", n |-> "x", v |-> 1]) /\ SetAll("SST", "x", 1)
NameR == \E p \in {1, Len(reps)} \cap 1..Len(reps), id \in {1, 2} : reps[p].id # id
           /\ H([op |-> "rename", p |-> p, id |-> id, t |-> reps[p].t]) /\ Rename(p, id, reps[p].t)
FiltR == \E f \in Filters : f # filt /\ H([op |-> "filter", f |-> f]) /\ SetFilter(f)
SplitR == reps # <<>> /\ H([op |-> "split", f |-> F1]) /\ Split(F1)
MNext == AppendR \/ SortR \/ PopR \/ NameR \/ FlagR \/ AllR \/ FiltR \/ SplitR
MSpec == MInit /\ [][MNext]_mvars

Emit == Len(hist) = Depth => PrintT("BEH deck " \o ToJson(hist))

SortOnlyPermutes == [][(hist' # hist /\ hist'[Len(hist')].op = "sort") =>
                        (RangeOf(reps) = RangeOf(reps') /\ Platforms(reps, flags, filt) # {} =>
                         {x[1] : x \in Platforms(reps, flags, filt)} = {x[1] : x \in Platforms(reps', flags, filt)})]_mvars
SplitLosesNothing == [][(hist' # hist /\ hist'[Len(hist')].op = "split") =>
                         RangeOf(reps) = RangeOf(parts'.p) \cup RangeOf(parts'.f)]_mvars
=============================================================================
