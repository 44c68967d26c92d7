------------------------------ MODULE TraceBase ------------------------------
(* Common part of every trace specification.  A trace file holds one record  *)
(* per line: k (kind), in (what the implementation was given), out (what its *)
(* public interface showed).  A verdict is total: it is the set of the names *)
(* of the clauses that the record breaks, and validation goes on after one.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
NRecs == Len(Recs)

Report(k, bad) == IF bad = {} THEN TRUE
                  ELSE PrintT("BAD " \o ToString(k) \o " " \o ToString(bad))
Finished(k) == IF k < NRecs THEN TRUE ELSE PrintT("DONE " \o ToString(NRecs))

(* A clause: its name if it is broken. *)
Clause(name, holds) == IF holds THEN {} ELSE {name}

(* Encodings used by the harness for values that are not numbers. *)
None == -99999
Exc  == -88888
NaN  == -77777
=============================================================================
