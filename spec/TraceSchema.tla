----------------------------- MODULE TraceSchema ------------------------------
(***************************************************************************)
(* Binds Compact, XmlSyntax and Compose to the implementation.  Each case  *)
(* is a set of schema files and what compiling them was observed to do:    *)
(*   files: <<[path, syntax, toks], ...>>, main: path                      *)
(*   obs: [ok, k: kind of error, id: name in it, path, at: place or -1,    *)
(*         file: the file of the place, mark: the text pointed out or "?"], *)
(*   loaded: the files that the compiler says it loaded,                   *)
(*   loads: those that it asked for,                                       *)
(*   lvl: 1 outcome, 2 also the place of an error                          *)
(*   dump: the compiled definitions ("0" is the start) or <<>>             *)
(*   twin: the same for the same schema in the other syntax, or nothing    *)
(*   names, atts, probes, depth: the events to compare the two under.      *)
(* First the outcome is compared, then, for a schema that both find        *)
(* correct, the compiled pattern and the specified one are run side by     *)
(* side under all sequences of events.                                     *)
(***************************************************************************)
EXTENDS Compose, Equiv, IOUtils, Json
C == INSTANCE Compact
X == INSTANCE XmlSyntax

Cases == ndJsonDeserialize(IOEnv.CASES)

FileAst(f) ==
    LET r == IF f.syntax = "rnc" THEN C!Parse(f.toks) ELSE X!Parse(f.toks, f.tab)
    IN  [path |-> f.path, ok |-> r.ok, un |-> r.un,
         decls |-> IF r.ok THEN r.v.decls ELSE <<>>, body |-> IF r.ok THEN r.v.body ELSE NA]
Read1(k) == [i \in 1..Len(Cases[k].files) |-> FileAst(Cases[k].files[i])]
Out(k) == LET fs == TLCEval(Read1(k))
          IN  IF \E i \in 1..Len(fs) : fs[i].un THEN [un |-> TRUE]
              ELSE LET o == Compose(fs, Cases[k].main)
                   IN  [un |-> FALSE, start |-> o.start, defs |-> o.defs, errs |-> o.errs, tol |-> o.tol, files |-> o.files]

\* c: the case; ph: see below; DA: the specified definitions; a, b: what remains of the
\* specified and of the compiled pattern; d: number of events; m: the last attribute
VARIABLES c, ph, DA, a, b, d, m, path
vars == <<c, ph, DA, a, b, d, m, path>>

Init == c \in 1..Len(Cases) /\ ph = "compile" /\ DA = <<>> /\ a = NA /\ b = NA /\ d = 0 /\ m = 0 /\ path = <<>>

Range(s) == {s[i] : i \in 1..Len(s)}

Named == {"UndefinedReference", "UndefinedNamespacePrefix", "UndefinedDatatypePrefix", "OverrideMissingFromInclude",
          "NoParentAvailable", "DefineRulesMixesChoiceAndInterleave", "ElementAsChildOfAttribute", "DuplicateDefinition"}
Spelled(n) == {n, "\\" \o n} \cup (IF n = "\\start" THEN {"start"} ELSE {})      \* the last: in the XML syntax

ErrMatch(e, o, lvl) ==
    /\ e.k = o.k
    /\ e.k \in {"UndefinedReference", "UndefinedNamespacePrefix", "UndefinedDatatypePrefix", "DuplicateDefinition",
                "OverrideMissingFromInclude"} => e.id = o.id
    /\ e.k = "Io" => e.id = o.path
    /\ lvl >= 2 => /\ (o.at # -2 /\ 0 \notin e.at => o.at \in e.at)
                   /\ (o.at # -2 /\ e.k = "Parse" => o.file = e.id)
                   \* the text that is pointed out, where the construct is a name
                   /\ (o.mark # "?" /\ e.k \in Named => o.mark \in Spelled(e.id))
                   /\ (o.mark # "?" /\ e.k = "RecursiveReference" => o.mark \in Spelled(o.id))

Judge(k, s) ==
    LET o == Cases[k].obs
    IN  IF o.k = "crash" THEN "crashed"
        ELSE IF s.errs = {}
        THEN IF o.ok THEN (IF Range(Cases[k].loaded) # s.files THEN "wrong files loaded"
                           ELSE IF Cardinality(Range(Cases[k].loads)) # Len(Cases[k].loads) THEN "a file is loaded twice"
                           ELSE "ok")
             ELSE IF \E e \in s.tol : ErrMatch(e, o, Cases[k].lvl) THEN "ok"
             ELSE "a correct schema is rejected"
        ELSE IF o.ok THEN "an incorrect schema is accepted"
        ELSE IF \E e \in s.errs \cup s.tol : ErrMatch(e, o, Cases[k].lvl) THEN "ok"
        ELSE IF \E e \in s.errs \cup s.tol : ErrMatch(e, o, 1) THEN "wrong place of the error"
        ELSE "wrong error"

Tell(k, v, w) == PrintT(<<"@@MISMATCH", Cases[k].id, v, w>>)

(* The same schema in both syntaxes: the two compiled patterns are run side by side. *)
Twin ==
    /\ ph = "compile"
    /\ DOMAIN Cases[c].twin # {}
    /\ ph' = "content"
    /\ DA' = Cases[c].twin
    /\ a' = Core(Cases[c].twin["0"], Cases[c].twin)
    /\ b' = Core(Cases[c].dump["0"], Cases[c].dump)
    /\ UNCHANGED <<c, d, m, path>>

Compile ==
    /\ ph = "compile"
    /\ DOMAIN Cases[c].twin = {}
    /\ LET s == TLCEval(Out(c))
           v == IF s.un THEN "ok" ELSE Judge(c, s)
           both == ~s.un /\ v = "ok" /\ s.errs = {} /\ Cases[c].obs.ok /\ Cases[c].dump # <<>>
       IN  /\ (IF v = "ok" THEN TRUE ELSE Tell(c, v, [must |-> s.errs, may |-> s.tol, files |-> s.files])) = TRUE
           /\ (IF s.un THEN PrintT(<<"@@UNCLAIMED", Cases[c].id>>) ELSE TRUE) = TRUE
           /\ ph' = IF both THEN "content" ELSE "done"
           /\ DA' = IF both THEN s.defs ELSE <<>>
           /\ a' = IF both THEN Core(s.start, s.defs) ELSE NA
           /\ b' = IF both THEN Core(Cases[c].dump["0"], Cases[c].dump) ELSE NA
    /\ UNCHANGED <<c, d, m, path>>

DB == Cases[c].dump
\* both sides after an event, in phase p, with the last attribute n
Go(x, y, ev, p, n) ==
    /\ (IF Agree(x, DA, y, DB) THEN TRUE ELSE Tell(c, "the compiled schema means something else", Append(path, ev))) = TRUE
    /\ x # NA /\ y # NA
    /\ a' = x /\ b' = y /\ ph' = p /\ m' = n /\ d' = d + 1 /\ path' = Append(path, ev)
    /\ UNCHANGED <<c, DA>>

More == d < Cases[c].depth
\* phases: "content" between elements, "tag" in a start tag, "fresh" just after one
Open == /\ ph \in {"content", "fresh"} /\ More
        /\ \E i \in 1..Len(Cases[c].names) :
             LET n == Cases[c].names[i]
             IN  Go(OpenD(a, n[1], n[2], DA), OpenD(b, n[1], n[2], DB), <<"open", n>>, "tag", 0)
Attr == /\ ph = "tag" /\ More
        /\ \E i \in (m + 1)..Len(Cases[c].atts), j \in 1..Len(Cases[c].probes) :
             LET n == Cases[c].atts[i]  s == Cases[c].probes[j]
             IN  Go(AttD(a, n[1], n[2], s), AttD(b, n[1], n[2], s), <<"attr", n, j>>, "tag", i)
Close == /\ ph = "tag" /\ More
         /\ Go(CloseD(a), CloseD(b), <<"close">>, "fresh", 0)
Sole == /\ ph = "fresh" /\ More
        /\ \E j \in 0..Len(Cases[c].probes) :
             LET s == IF j = 0 THEN <<>> ELSE Cases[c].probes[j]
             IN  Go(EndD(ContentD(a, s, TRUE)), EndD(ContentD(b, s, TRUE)), <<"end", j>>, "content", 0)
Mix == /\ ph \in {"fresh", "content"} /\ More
       /\ \E j \in 1..Len(Cases[c].probes) :
            LET s == Cases[c].probes[j]
            IN  ~AllWs(s) /\ Go(ContentD(a, s, FALSE), ContentD(b, s, FALSE), <<"text", j>>, "texted", 0)
After1 == /\ ph = "texted" /\ More
          /\ \E i \in 1..Len(Cases[c].names) :
               LET n == Cases[c].names[i]
               IN  Go(OpenD(a, n[1], n[2], DA), OpenD(b, n[1], n[2], DB), <<"open", n>>, "tag", 0)
End == /\ ph \in {"content", "texted"} /\ More
       /\ Go(EndD(a), EndD(b), <<"end">>, "content", 0)

Next == Twin \/ Compile \/ Open \/ Attr \/ Close \/ Sole \/ Mix \/ After1 \/ End
Spec == Init /\ [][Next]_vars
View == <<c, ph, m, a, b>>
=============================================================================
