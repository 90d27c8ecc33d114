------------------------------ MODULE TraceDocs -----------------------------
(***************************************************************************)
(* Binds RngDoc to the implementation: each case is a schema, a document   *)
(* and what the implementation was observed to do with them.  TLC runs the *)
(* state machine over the tokens of every document and compares.           *)
(*                                                                         *)
(* Schemas: one record per line, a map from names to patterns, with        *)
(* "start".  Docs: [s: index of schema, id, toks, obs, lvl, hint] where    *)
(*   obs = [r: "ok" or kind of error, at: token, sub: piece; dr, dat, dsub, *)
(*        dto, mark: the same as the rendered diagnostic shows it, with   *)
(*        the text that is pointed out]                                     *)
(*   lvl: 1 verdict only, 2 also the place of the error, 3 also the hint.  *)
(*   hint = <<>> or <<<<names..>>, count of the rest>>                     *)
(***************************************************************************)
EXTENDS RngDoc, TLC, IOUtils, Json

Schemas == ndJsonDeserialize(IOEnv.SCHEMAS)
Docs == ndJsonDeserialize(IOEnv.DOCS)

VARIABLES c, l, st
vars == <<c, l, st>>

Defs(k) == Schemas[Docs[k].s]
Toks(k) == Docs[k].toks
Last(k) == Len(Toks(k)) + 1

Init == /\ c \in 1..Len(Docs)
        /\ l = 1
        /\ st = InitDoc(Defs(c).start, Defs(c))

Matches(e, o) == /\ e.k = "*" \/ e.k = o.r
                 /\ e.at = 0 \/ e.at = o.at
                 /\ e.sub = 0 \/ o.sub = 0 \/ e.sub = o.sub

(* The diagnostic is there, lies within the document and is about the same.
   What makes a document malformed is shown where it is, or in the tag or
   text around it.                                                          *)
Near(o, s, i) == \/ o.dat \in {i, i + 1}
                 \/ s.tag # NoTag /\ s.tag.at <= o.dat /\ o.dat <= i
                 \/ o.dat \in s.run.at
\* the text that is pointed out, where the error is about a name
Marked(e, o, tok) ==
    CASE e.k = "UndefinedNamespacePrefix" /\ tok[1] \in {"open", "attr"} -> o.mark \in {tok[2], tok[2] \o ":" \o tok[3]}
      [] e.k = "UndefinedEntity" /\ e.sub > 0 /\ tok[1] \in {"text", "attr"} ->
            LET p == (IF tok[1] = "text" THEN tok[2] ELSE tok[4])[e.sub]
                n == IF p[1] = "ent" THEN p[2] ELSE p[3]
            IN  o.mark \in {n, "&" \o n \o ";"}
      [] OTHER -> TRUE
\* toks: the tokens of the document
Shown(e, o, s, i, toks) ==
               /\ o.dr = "ok"
               /\ IF e.at = 0 THEN Near(o, s, i) ELSE o.dat = e.at /\ o.dto = e.at
               /\ e.sub = 0 \/ o.dsub = 0 \/ e.sub = o.dsub
               /\ e.at = 0 \/ e.at > Len(toks) \/ Marked(e, o, toks[e.at])

(* The description of a name class in a hint. *)
RECURSIVE Desc(_)
Desc(nc) == CASE nc[1] = "name" -> nc[3]
              [] nc[1] = "nsName" -> nc[2] \o ":*" \o (IF nc[3][1] = "none" THEN "" ELSE "-" \o Desc(nc[3]))
              [] nc[1] = "anyName" -> "*" \o (IF nc[2][1] = "none" THEN "" ELSE "-" \o Desc(nc[2]))
              [] nc[1] = "alt" -> Desc(nc[2]) \o "|" \o Desc(nc[3])
HintOk(h, p) ==
    LET S == {Desc(nc) : nc \in Heads(p)}
        names == {h[1][i] : i \in 1..Len(h[1])}
    IN  /\ Cardinality(names) = Len(h[1])
        /\ names \subseteq S
        /\ Cardinality(S) = Len(h[1]) + h[2]
        /\ h[2] > 0 => Len(h[1]) = 4

\* was: the state before the token i, s: the one after it, p: what may come there
Verdict(k, was, i, s, p) ==
    LET o == Docs[k].obs
    IN  IF Rejected(s)
        THEN IF o.r = "ok" THEN "accepted, should be rejected"
             ELSE IF o.r = "crash" THEN "crashed"
             ELSE IF Docs[k].lvl >= 2 /\ ~\E e \in s.err : Matches(e, o) THEN "wrong error"
             ELSE IF Docs[k].lvl >= 2 /\ ~\E e \in s.err : Matches(e, o) /\ Shown(e, o, was, i, Docs[k].toks) THEN "wrong diagnostic"
             ELSE IF Docs[k].lvl >= 3 /\ Docs[k].hint # <<>> /\ ~HintOk(Docs[k].hint, p) THEN "wrong hint"
             ELSE "ok"
        ELSE IF o.r = "ok" THEN "ok"
             ELSE IF o.r = "crash" THEN "crashed"
             ELSE "rejected, should be accepted"

Report(k, was, i, s, p) ==
    LET v == Verdict(k, was, i, s, p)
    IN  IF v = "ok" THEN TRUE ELSE PrintT(<<"@@MISMATCH", Docs[k].id, v, s.err, {Desc(nc) : nc \in Heads(p)}>>)

Tok(k, i) == IF i = Last(k) THEN <<"eof">> ELSE Toks(k)[i]

Next == /\ l <= Last(c)
        /\ ~Rejected(st)
        /\ LET s == Step(st, Tok(c, l), l, Defs(c))
           IN  /\ st' = s
               /\ IF Rejected(s) \/ l = Last(c) THEN Report(c, st, l, s, HintPat(st, Tok(c, l))) ELSE TRUE
        /\ l' = l + 1
        /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
View == <<c, l>>
=============================================================================
