------------------------------- MODULE TraceApi -------------------------------
(* Recorded calls of the library and their results, followed in Api. *)
EXTENDS Api, TLC, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, m
vars == <<c, i, m>>

Init == c \in 1..Len(Cases) /\ i = 1 /\ m = Start(Cases[c].most)
Next == /\ i <= Len(Cases[c].calls)
        /\ m # Stuck
        /\ LET x == Call(m, Cases[c].calls[i])
           IN  /\ m' = x
               /\ (IF x = Stuck THEN PrintT(<<"@@MISMATCH", Cases[c].id, Cases[c].calls[i]>>) ELSE TRUE) = TRUE
        /\ i' = i + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, i>>
===============================================================================
