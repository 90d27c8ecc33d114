----------------------------- MODULE TraceLong ------------------------------
(***************************************************************************)
(* Long and deep documents (C24).  A document is given by five pieces:     *)
(*     pre  unit^n  mid  close^n  post                                     *)
(* For a long one, close is empty and unit consists of whole elements; for *)
(* a deep one, unit begins with the start tag that close ends with.        *)
(*                                                                         *)
(* The state of RngDoc before each unit is a function of that before the   *)
(* previous one, so once a state comes back the rest of the run is known,  *)
(* for every n, without being executed: the verdict on the document with   *)
(* n units is that on the one with Small(n) units.  For a deep document    *)
(* the same holds of what remains of the innermost element (as long as     *)
(* there is only one way to read the document, so that the elements around *)
(* it do not matter before it ends).                                       *)
(*                                                                         *)
(* Cases: [s, id, deep, pre, unit, mid, close, post, ns, acc] where acc    *)
(* are the verdicts observed for the numbers ns.                           *)
(***************************************************************************)
EXTENDS RngDoc, TLC, IOUtils, Json

Schemas == ndJsonDeserialize(IOEnv.SCHEMAS)
Cases == ndJsonDeserialize(IOEnv.CASES)
MaxSteps == 14

\* the state after tokens ts (positions do not matter here)
RECURSIVE Run(_, _, _, _)
Run(st, ts, i, D) == IF i > Len(ts) \/ Rejected(st) THEN st
                     ELSE LET s == Step(st, ts[i], 2, D) IN Run(s, ts, i + 1, D)
RECURSIVE Times(_, _, _, _)
Times(st, ts, n, D) == IF n = 0 \/ Rejected(st) THEN st ELSE Times(Run(st, ts, 1, D), ts, n - 1, D)
Full(k, n) ==
    LET D == Schemas[k.s]
        a == Times(Run(InitDoc(D.start, D), k.pre, 1, D), k.unit, n, D)
        b == Times(Run(a, k.mid, 1, D), k.close, n, D)
    IN  ~Rejected(Step(Run(b, k.post, 1, D), <<"eof">>, 2, D))

\* what the future of the run depends on, or <<>> if that is too much
Essence(st, deep) ==
    IF Rejected(st) THEN <<"rejected">>
    ELSE IF st.run.on THEN <<>>
    ELSE IF ~deep THEN <<st.pat, st.stack, st.phase, st.fresh>>
    ELSE IF st.pat[1] # "after" THEN <<>>
    ELSE <<st.pat[2], st.phase, st.fresh>>

\* the essences before each unit, up to the first that comes back
RECURSIVE Walk(_, _, _, _)
Walk(k, st, seen, D) ==
    LET e == Essence(st, k.deep)
    IN  IF e = <<>> \/ Len(seen) > MaxSteps THEN [found |-> FALSE, at |-> 0, len |-> 0]
        ELSE IF \E i \in 1..Len(seen) : seen[i] = e
        THEN [found |-> TRUE, at |-> CHOOSE i \in 1..Len(seen) : seen[i] = e, len |-> Len(seen)]
        ELSE Walk(k, Run(st, k.unit, 1, D), Append(seen, e), D)
Lasso(k) == LET D == Schemas[k.s]
            IN  Walk(k, Run(InitDoc(D.start, D), k.pre, 1, D), <<>>, D)

\* essences 1..len before units 0..len-1; essence `at' is that after len units.
\* A deep document has to go through the whole cycle, to end all its elements.
Small(w, n, deep) ==
    IF n < w.len THEN n
    ELSE LET p == w.len - (w.at - 1)
             r == (w.at - 1) + ((n - (w.at - 1)) % p)
         IN  IF deep THEN r + p ELSE r

VARIABLES c, i, w
vars == <<c, i, w>>
None == [found |-> FALSE, at |-> 0, len |-> 0]
Init == c \in 1..Len(Cases) /\ i = 0 /\ w = None
Say(k, n, m, what) == PrintT(<<"@@MISMATCH", k.id, n, m, what>>)
Judge(k, n, o) ==
    LET m == Small(w, n, k.deep)
        e == Full(k, m)
    IN  IF o = "crash" THEN Say(k, n, m, "crashes")
        ELSE IF o = "timeout" THEN Say(k, n, m, "does not end")
        ELSE IF o = "memory" THEN Say(k, n, m, "takes more and more memory")
        ELSE IF e /\ o = "no" THEN Say(k, n, m, "rejected, should be accepted")
        ELSE IF ~e /\ o = "ok" THEN Say(k, n, m, "accepted, should be rejected")
        ELSE PrintT(<<"@@JUDGED", IF e THEN "valid" ELSE "invalid", IF n > w.len THEN "beyond" ELSE "within">>)
\* without verdicts: which cases can be judged at all?
Plan(k, l) == IF l.found /\ k.acc = <<>> THEN PrintT(<<"@@PLAN", k.id>>) ELSE TRUE
Next == /\ IF i = 0 THEN LET l == Lasso(Cases[c])
                         IN  w' = l /\ i' = (IF Cases[c].acc = <<>> THEN 1000000 ELSE 1) /\ Plan(Cases[c], l) = TRUE
           ELSE /\ i <= Len(Cases[c].ns) /\ w.found
                /\ Judge(Cases[c], Cases[c].ns[i], Cases[c].acc[i]) = TRUE
                /\ i' = i + 1 /\ UNCHANGED w
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
