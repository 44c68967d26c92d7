-------------------------------- MODULE Deck ---------------------------------
(* A collection of reports ("deck"): additions, sorting, removals, filters,   *)
(* flags, and the platforms ("voyages") it is asked for.                      *)
(*                                                                            *)
(* A report is a record [u |-> unique id, id |-> platform identifier,         *)
(* t |-> time in minutes or NoTime].  Identifiers are small naturals whose    *)
(* order is the alphabetical order of the identifiers used by the harness.    *)
EXTENDS Integers, Sequences, FiniteSets

NoTime == -99999       \* a report whose time is not known

VARIABLES reps,        \* the reports held, in order
          flags,       \* <<u, type, name>> -> value 0..9; unset = not in domain
          filt,        \* sequence of conditions [t, n, v]
          parts        \* result of the last split, or NoSplit

dvars == <<reps, flags, filt, parts>>

Unset == 9
Flag(fl, u, t, n) == IF <<u, t, n>> \in DOMAIN fl THEN fl[<<u, t, n>>] ELSE Unset
SetOne(fl, u, t, n, v) == [k \in DOMAIN fl \cup {<<u, t, n>>} |->
                             IF k = <<u, t, n>> THEN v ELSE fl[k]]

(* A filter is passed when every one of its conditions is met. *)
PassesF(fl, f, r) == \A c \in 1..Len(f) : Flag(fl, r.u, f[c].t, f[c].n) = f[c].v
Passes(r) == PassesF(flags, filt, r)

UidsOf(s) == [k \in 1..Len(s) |-> s[k].u]
RangeOf(s) == {s[k] : k \in 1..Len(s)}

(* The platforms of the deck: for each identifier, the reports that pass the  *)
(* filter, in deck order.                                                      *)
Ids(s) == {s[k].id : k \in 1..Len(s)}
Platform(s, fl, f, id) == SelectSeq(s, LAMBDA r : r.id = id /\ PassesF(fl, f, r))
Platforms(s, fl, f) == {<<id, UidsOf(Platform(s, fl, f, id))>> : id \in
                          {x \in Ids(s) : Platform(s, fl, f, x) # <<>>}}

(* Sorting: identifier first, then time.  Reports without a time may be        *)
(* anywhere among those of their platform.                                      *)
Sorted(s) == \A a, b \in 1..Len(s) : a < b =>
                /\ s[a].id <= s[b].id
                /\ (s[a].id = s[b].id /\ s[a].t # NoTime /\ s[b].t # NoTime) => s[a].t <= s[b].t
Permutation(s, z) == Len(s) = Len(z) /\ RangeOf(s) = RangeOf(z)

DInit == reps = <<>> /\ flags = <<>> /\ filt = <<>> /\ parts = [p |-> <<>>, f |-> <<>>]

Append1(r) == /\ \A k \in 1..Len(reps) : reps[k].u # r.u
              /\ reps' = Append(reps, r)
              /\ UNCHANGED <<flags, filt, parts>>
SortTo(s) == /\ Permutation(reps, s) /\ Sorted(s)
             /\ reps' = s
             /\ UNCHANGED <<flags, filt, parts>>
RemoveAt(s, p) == [k \in 1..(Len(s) - 1) |-> IF k < p THEN s[k] ELSE s[k + 1]]
PopAt(p) == /\ p \in 1..Len(reps)
            /\ reps' = RemoveAt(reps, p)
            /\ UNCHANGED <<flags, filt, parts>>
SetFlag(p, t, n, v) == /\ p \in 1..Len(reps)
                       /\ flags' = SetOne(flags, reps[p].u, t, n, v)
                       /\ UNCHANGED <<reps, filt, parts>>
SetAll(t, n, v) == /\ flags' = [k \in DOMAIN flags \cup {<<reps[p].u, t, n>> : p \in 1..Len(reps)} |->
                                  IF k[2] = t /\ k[3] = n /\ \E p \in 1..Len(reps) : reps[p].u = k[1]
                                  THEN v ELSE flags[k]]
                   /\ UNCHANGED <<reps, filt, parts>>
(* A report may get another identifier or time while it is held. *)
Rename(p, id, t) == /\ p \in 1..Len(reps)
                    /\ reps' = [reps EXCEPT ![p] = [u |-> @.u, id |-> id, t |-> t]]
                    /\ UNCHANGED <<flags, filt, parts>>
SetFilter(f) == filt' = f /\ UNCHANGED <<reps, flags, parts>>
(* Splitting takes every report out of the deck, into those that pass and      *)
(* those that fail the given filter, both in the original order.               *)
Split(f) == /\ parts' = [p |-> SelectSeq(reps, LAMBDA r : PassesF(flags, f, r)),
                         f |-> SelectSeq(reps, LAMBDA r : ~PassesF(flags, f, r))]
            /\ reps' = <<>>
            /\ UNCHANGED <<flags, filt>>

(* ---- properties of the design ------------------------------------------- *)
(* Every report held that passes the filter is in exactly one platform, the    *)
(* one with its own identifier, exactly once; nothing else is in any platform. *)
PartitionOK ==
  LET pl == Platforms(reps, flags, filt)
      count(u) == Cardinality({<<x, k>> \in {<<x, k>> \in pl \X (1..Len(reps)) : k <= Len(x[2])} : x[2][k] = u})
  IN /\ \A k \in 1..Len(reps) : count(reps[k].u) = IF Passes(reps[k]) THEN 1 ELSE 0
     /\ \A x \in pl : \A k \in 1..Len(x[2]) : \E q \in 1..Len(reps) : reps[q].u = x[2][k] /\ reps[q].id = x[1]
SplitOK == \A r \in RangeOf(parts.p) : r \notin RangeOf(parts.f)
NoDuplicates == \A a, b \in 1..Len(reps) : reps[a].u = reps[b].u => a = b
=============================================================================
