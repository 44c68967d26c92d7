-------------------------------- MODULE Flags --------------------------------
(* The quality-flag store of a set of reports, written through the report, a  *)
(* voyage or a deck, and tested by filters.                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES store,     \* store[u] : function from <<type, name>> to value
          refused    \* was the last write refused
fvars == <<store, refused>>

KnownTypes == {"POS", "SST", "AT", "DPT", "SLP", "W", "D", "DAT",
               "YR", "MO", "DY", "HR", "LAT", "LON", "DS", "VS", "AT2", "DCK", "PT", "SID",
               "SHU", "VAP", "CRH", "CWB", "DPD", "WI", "DI", "WW"}
Unset == 9
Value(u, t, n) == IF <<t, n>> \in DOMAIN store[u] THEN store[u][<<t, n>>] ELSE Unset
Legal(t, v) == t \in KnownTypes /\ v \in 0..9
Put(f, t, n, v) == [k \in DOMAIN f \cup {<<t, n>>} |-> IF k = <<t, n>> THEN v ELSE f[k]]
FInit(U) == store = [u \in U |-> <<>>] /\ refused = 0
(* Us: the reports the write addresses (one report, or all of a deck). *)
Write(Us, t, n, v) ==
  IF Legal(t, v)
  THEN /\ store' = [u \in DOMAIN store |-> IF u \in Us THEN Put(store[u], t, n, v) ELSE store[u]]
       /\ refused' = 0
  ELSE /\ UNCHANGED store /\ refused' = (IF Us = {} THEN 0 ELSE 1)
PassesFilter(u, f) == \A c \in 1..Len(f) : Value(u, f[c].t, f[c].n) = f[c].v

TypeOK == \A u \in DOMAIN store : \A k \in DOMAIN store[u] : Legal(k[1], store[u][k])
=============================================================================
