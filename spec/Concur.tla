------------------------------- MODULE Concur -------------------------------
(***************************************************************************)
(* Several validators made from one compiled schema (C10).  What a         *)
(* validator answers to its n-th request depends on its own document only: *)
(* Solo[d] is the sequence of answers of a validator that has the schema   *)
(* to itself.  Nothing is shared, so the state is one position per         *)
(* validator.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE vals     \* sequence of [doc, pos]

InitVals == vals = <<>>
New(d) == vals' = Append(vals, [doc |-> d, pos |-> 0])
\* the answer to the next request of validator k, if it has one
Answer(solo, k) == solo[vals[k].doc][vals[k].pos + 1]
Asks(solo, k) == k \in 1..Len(vals) /\ vals[k].pos < Len(solo[vals[k].doc])
StepVal(k) == vals' = [vals EXCEPT ![k].pos = @ + 1]
=============================================================================
