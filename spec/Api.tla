--------------------------------- MODULE Api ----------------------------------
(***************************************************************************)
(* The library as a state machine: a compiler and a validator, what may be *)
(* called when, and what the calls may return.  Whatever the texts are,    *)
(* every call returns, with success or an error; an error does not end     *)
(* anything: one may go on, and render the error.                          *)
(*                                                                         *)
(*   m = [com: "new" | "failed" | "rendered" | "ready",                    *)
(*        val: "none" | "running" | "failed" | "shown" | "ended",          *)
(*        left: the number of results that the document may yet give]      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Start(most) == [com |-> "new", val |-> "none", left |-> most]
Stuck == [com |-> "stuck", val |-> "none", left |-> 0]

\* compile(): at any time but while a model is being used
Compile(m, res) == CASE res = "ok" -> [m EXCEPT !.com = "ready"]
                     [] res = "err" -> [m EXCEPT !.com = "failed"]
                     [] OTHER -> Stuck

\* rendering the last error
Render(m, res) == IF res # "done" THEN Stuck
                  ELSE IF m.val = "failed" THEN [m EXCEPT !.val = "shown"]
                  ELSE IF m.val \in {"none", "running", "ended"} /\ m.com = "failed" THEN [m EXCEPT !.com = "rendered"]
                  ELSE Stuck

New(m, res) == IF res = "done" /\ m.com = "ready" THEN [m EXCEPT !.val = "running"] ELSE Stuck

\* n calls of validate_next() with the same result.  A document gives a bounded number of
\* results, and nothing follows its end.
NextResult(m, res, n) ==
    IF m.val \notin {"running", "failed", "shown", "ended"} THEN Stuck
    ELSE CASE res = "end" -> [m EXCEPT !.val = "ended"]
           [] m.val = "ended" \/ n > m.left -> Stuck
           [] res = "ok" -> [m EXCEPT !.val = "running", !.left = @ - n]
           [] res = "err" -> [m EXCEPT !.val = "failed", !.left = @ - n]
           [] OTHER -> Stuck

Call(m, c) == CASE c[1] = "compile" -> Compile(m, c[2])
                [] c[1] = "render" -> Render(m, c[2])
                [] c[1] = "new" -> New(m, c[2])
                [] c[1] = "next" -> NextResult(m, c[2], c[3])
===============================================================================
