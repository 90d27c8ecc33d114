---------------------------- MODULE TraceConcur -----------------------------
(***************************************************************************)
(* Cases: [id, solo: <<answers per document..>>, events], an event being   *)
(* <<"new", k, document>> or <<"step", k, answer>>.  Every observed event  *)
(* has to be one that Concur allows, with the answer it prescribes.        *)
(***************************************************************************)
EXTENDS Concur, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l
vars == <<c, l, vals>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ InitVals
Ev == Cases[c].events[l]
Bad(what) == PrintT(<<"@@MISMATCH", Cases[c].id, l, what>>)
Next == /\ l <= Len(Cases[c].events)
        /\ l' = l + 1 /\ UNCHANGED c
        /\ IF Ev[1] = "new" THEN New(Ev[3])
           ELSE IF ~Asks(Cases[c].solo, Ev[2]) THEN Bad("answers after its end") /\ UNCHANGED vals
           ELSE /\ StepVal(Ev[2])
                /\ IF Ev[3] = Answer(Cases[c].solo, Ev[2]) THEN TRUE
                   ELSE Bad("answers otherwise than alone")
\* at the end of a schedule every validator has come to its end
Ended == l = Len(Cases[c].events) + 1 =>
            \A k \in 1..Len(vals) : Asks(Cases[c].solo, k) => Bad("ended early")
Spec == Init /\ [][Next]_vars
=============================================================================
