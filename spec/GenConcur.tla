----------------------------- MODULE GenConcur ------------------------------
(* Every interleaving of the validation of documents of the given lengths: *)
(* TLC prints each complete behaviour as a schedule to be replayed.        *)
EXTENDS Concur, TLC, IOUtils, Json
Lens == JsonDeserialize(IOEnv.LENS)      \* sequence of numbers of requests
Solo == [d \in 1..Len(Lens) |-> [i \in 1..Lens[d] |-> "ok"]]
VARIABLE hist
Init == InitVals /\ hist = <<>>
\* validators are created in order, at any time
Next == \/ /\ Len(vals) < Len(Lens)
           /\ New(Len(vals) + 1)
           /\ hist' = Append(hist, 0)
        \/ \E k \in 1..Len(vals) : Asks(Solo, k) /\ StepVal(k) /\ hist' = Append(hist, k)
Done == Len(vals) = Len(Lens) /\ \A k \in 1..Len(vals) : ~Asks(Solo, k)
Spec == Init /\ [][Next]_<<vals, hist>>
Emit == Done => PrintT(<<"@@SCHED", hist>>)
=============================================================================
