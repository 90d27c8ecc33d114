--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command-line tool: `rng validate SCHEMA DOCUMENT...' (C22).         *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES phase,   \* "start", "running", "exited"
          next,    \* the next document
          status,  \* the exit status
          blamed   \* what a diagnostic has to name: "" | "schema" | a document's file
cli == <<phase, next, status, blamed>>

\* a file that is not there or is not UTF-8: any status but 0
Unreadable == -1

InitCli == phase = "start" /\ next = 1 /\ status = 0 /\ blamed = ""
\* the schema is compiled first; no document is looked at if that fails
Compile(ok) == /\ phase = "start"
               /\ IF ok THEN phase' = "running" /\ UNCHANGED <<status, blamed>>
                  ELSE phase' = "exited" /\ status' = 1 /\ blamed' = "schema"
               /\ UNCHANGED next
\* the documents are validated in order
Validate(docs, readable(_), ok(_)) ==
    /\ phase = "running" /\ next <= Len(docs)
    /\ IF ~readable(docs[next])
       THEN phase' = "exited" /\ status' = Unreadable /\ UNCHANGED <<blamed, next>>
       ELSE IF ok(docs[next]) THEN next' = next + 1 /\ UNCHANGED <<phase, status, blamed>>
       ELSE phase' = "exited" /\ status' = 2 /\ blamed' = docs[next] /\ UNCHANGED next
Finish(docs) == /\ phase = "running" /\ next > Len(docs)
                /\ phase' = "exited" /\ UNCHANGED <<next, status, blamed>>
=============================================================================
