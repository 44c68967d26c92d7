------------------------------- MODULE Unpack --------------------------------
(* Programs that need a background field share a scratch directory. The field  *)
(* of a day may be there plain, packed (then it is unpacked into the scratch    *)
(* directory under its own name), or not at all. A program may be killed at any *)
(* moment and unpacking may fail; others may be at work at the same time.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Programs,      \* programs at work
          Atomic         \* unpack under another name first (what must be done)
VARIABLES scratch,       \* what is under the final name: "absent", "part", "whole"
          pc,            \* program -> "idle", "unpacking", "done"
          mine,          \* program -> what is under its own name
          got            \* program -> what the last call returned: "nothing", "part", "whole", "none"
uvars == <<scratch, pc, mine, got>>
UInit == /\ scratch = "absent" /\ pc = [p \in Programs |-> "idle"]
         /\ mine = [p \in Programs |-> "absent"] /\ got = [p \in Programs |-> "nothing"]
(* a call that finds the file under its final name uses it as it is *)
Start(p) == /\ pc[p] = "idle"
            /\ IF scratch # "absent"
               THEN /\ got' = [got EXCEPT ![p] = scratch] /\ UNCHANGED <<scratch, pc, mine>>
               ELSE /\ pc' = [pc EXCEPT ![p] = "unpacking"] /\ got' = [got EXCEPT ![p] = "nothing"]
                    /\ mine' = [mine EXCEPT ![p] = "part"]
                    /\ scratch' = IF Atomic THEN scratch ELSE "part"
Finish(p) == /\ pc[p] = "unpacking" /\ pc' = [pc EXCEPT ![p] = "idle"]
             /\ scratch' = "whole" /\ mine' = [mine EXCEPT ![p] = "absent"]
             /\ got' = [got EXCEPT ![p] = "whole"]
(* unpacking fails: nothing is returned *)
Fail(p) == /\ pc[p] = "unpacking" /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ mine' = [mine EXCEPT ![p] = "absent"] /\ got' = [got EXCEPT ![p] = "none"]
           /\ UNCHANGED scratch
(* the program is killed; one of the same number takes over later *)
Kill(p) == /\ pc[p] = "unpacking" /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ got' = [got EXCEPT ![p] = "nothing"] /\ UNCHANGED <<scratch, mine>>
=============================================================================
