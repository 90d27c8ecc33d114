------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Cases: [s: schema, broken: BOOLEAN (a syntax error), id,                *)
(*   docs: <<file names..>>, status, named: <<files named in diagnostics>>,*)
(*   schemafile]; documents: [s, name, toks, readable].  A run is followed by Cli,   *)
(* which takes the verdict on each document from RngDoc.                   *)
(***************************************************************************)
EXTENDS RngDoc, Cli, TLC, IOUtils, Json

Schemas == ndJsonDeserialize(IOEnv.SCHEMAS)
Docs == ndJsonDeserialize(IOEnv.DOCS)
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, reported
vars == <<c, reported, phase, next, status, blamed>>

RECURSIVE Closed(_, _)
Closed(p, D) ==
    CASE p[1] = "ref" -> p[2] \in DOMAIN D
      [] p[1] \in {"choice", "group", "interleave"} -> \A i \in 1..Len(p[2]) : Closed(p[2][i], D)
      [] p[1] \in {"optional", "zeroOrMore", "oneOrMore", "mixed", "list"} -> Closed(p[2], D)
      [] p[1] \in {"element", "attribute"} -> Closed(p[3], D)
      [] OTHER -> TRUE
AllClosed == TLCEval([s \in 1..Len(Schemas) |-> \A n \in DOMAIN Schemas[s] : Closed(Schemas[s][n], Schemas[s])])
SchemaOk(k) == ~k.broken /\ AllClosed[k.s]

RECURSIVE Run(_, _, _, _)
Run(st, ts, i, D) == IF i > Len(ts) \/ Rejected(st) THEN st ELSE Run(Step(st, ts[i], i, D), ts, i + 1, D)
Valid(D, ts) == ~Rejected(Step(Run(InitDoc(D.start, D), ts, 1, D), <<"eof">>, Len(ts) + 1, D))
Verdicts == TLCEval([d \in 1..Len(Docs) |-> IF Docs[d].toks = <<>> \/ ~Docs[d].readable \/ ~AllClosed[Docs[d].s] THEN FALSE
                                            ELSE Valid(Schemas[Docs[d].s], Docs[d].toks)])
DocOf(s, name) == CHOOSE d \in 1..Len(Docs) : Docs[d].s = s /\ Docs[d].name = name

Say(what) == PrintT(<<"@@MISMATCH", Cases[c].id, what, status, blamed>>)
Named == {Cases[c].named[i] : i \in 1..Len(Cases[c].named)}
Judge == IF status = Unreadable /\ Cases[c].status \notin {0, -999} THEN TRUE
         ELSE IF Cases[c].status # status THEN Say("another exit status is expected")
         ELSE IF blamed = "schema" /\ Cases[c].schemafile \notin Named THEN Say("the schema is not named")
         ELSE IF blamed \notin {"", "schema"} /\ blamed \notin Named THEN Say("the document is not named")
         ELSE IF blamed \notin {"", "schema"} /\ Named # {blamed} THEN Say("another file is named")
         ELSE IF status = 0 /\ Named # {} THEN Say("a file is named although all is well")
         ELSE TRUE
Init == c \in 1..Len(Cases) /\ reported = FALSE /\ InitCli
Next == \/ /\ Compile(SchemaOk(Cases[c])) /\ UNCHANGED <<c, reported>>
        \/ /\ Validate(Cases[c].docs, LAMBDA n : Docs[DocOf(Cases[c].s, n)].readable, LAMBDA n : Verdicts[DocOf(Cases[c].s, n)]) /\ UNCHANGED <<c, reported>>
        \/ /\ Finish(Cases[c].docs) /\ UNCHANGED <<c, reported>>
        \/ /\ phase = "exited" /\ ~reported /\ Judge = TRUE
           /\ reported' = TRUE /\ UNCHANGED <<c, phase, next, status, blamed>>
Spec == Init /\ [][Next]_vars
=============================================================================
