------------------------------- MODULE RngDoc -------------------------------
(***************************************************************************)
(* The validator as a state machine over the tokens of a document.         *)
(*                                                                         *)
(* Tokens:                                                                 *)
(*   <<"decl">> <<"doctype", <<<<name, pieces, "general" or               *)
(*        "parameter">>, ...>>>>                                           *)
(*   <<"comment">> <<"pi">>                                                *)
(*   <<"open", prefix, local>>  <<"attr", prefix, local, pieces>>          *)
(*   <<"ns", prefix, uri>>      <<"sgt">>  <<"empty">>                     *)
(*   <<"close", prefix, local>> <<"text", pieces>>  <<"cdata", chars>>     *)
(*   <<"bad">> (a lexical error)  <<"eof">>                                *)
(* Pieces of text and attribute values:                                    *)
(*   <<"s", chars>>  <<"ent", name>>  <<"num", code>>  <<"bad">>           *)
(*   <<"ref", chars, the same as a string>>: whatever there is between an  *)
(*   ampersand and a semicolon                                             *)
(*                                                                         *)
(* The state says what remains to be matched, and, once the document is    *)
(* rejected, which error reports are correct: err is a set of records      *)
(* [k: kind of error or "*", at: index of the offending token or 0,        *)
(*  sub: index of the offending piece or 0].                               *)
(***************************************************************************)
EXTENDS Rng

XmlNs == "http://www.w3.org/XML/1998/namespace"

------------------------------------------------------------------------------
(* Entities (C06).                                                          *)
Predefined == << <<"lt", <<60>>>>, <<"gt", <<62>>>>, <<"amp", <<38>>>>,
                 <<"apos", <<39>>>>, <<"quot", <<34>>>> >>
Bad(k, i) == [ok |-> FALSE, s |-> <<>>, k |-> k, sub |-> i]
Good(s) == [ok |-> TRUE, s |-> s, k |-> "", sub |-> 0]

HasKey(assoc, k) == \E i \in 1..Len(assoc) : assoc[i][1] = k
\* the first entry for k
Lookup(assoc, k) == assoc[CHOOSE i \in 1..Len(assoc) :
                            assoc[i][1] = k /\ \A j \in 1..(i - 1) : assoc[j][1] # k][2]

\* Characters written literally: line ends are one line feed, and within
\* attribute values all white space is spaces.
RECURSIVE Eol(_, _)
Eol(s, i) == IF i > Len(s) THEN <<>>
             ELSE IF s[i] # 13 THEN <<s[i]>> \o Eol(s, i + 1)
             ELSE IF i < Len(s) /\ s[i + 1] = 10 THEN Eol(s, i + 1)
             ELSE <<10>> \o Eol(s, i + 1)
Literal(s, attr) ==
    LET e == IF \E i \in 1..Len(s) : s[i] = 13 THEN Eol(s, 1) ELSE s
    IN  IF attr /\ \E i \in 1..Len(e) : e[i] \in {9, 10}
        THEN [i \in 1..Len(e) |-> IF e[i] \in {9, 10} THEN 32 ELSE e[i]] ELSE e

\* what is between an ampersand and a semicolon: a reference to a character or an entity, or neither
IsName(cs) == /\ cs # <<>>
              /\ NameStart(cs[1]) \/ cs[1] = 58
              /\ \A i \in 2..Len(cs) : NameChar(cs[i]) \/ cs[i] = 58
HexDigit(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsUpper(c) THEN c - 55 ELSE c - 87
RECURSIVE HexVal(_)
HexVal(s) == IF s = <<>> THEN 0 ELSE 16 * HexVal(SubSeq(s, 1, Len(s) - 1)) + HexDigit(s[Len(s)])
Reference(cs, name) ==
    IF cs # <<>> /\ cs[1] = 35
    THEN LET hex == Len(cs) > 1 /\ cs[2] = 120
             ds == SubSeq(cs, IF hex THEN 3 ELSE 2, Len(cs))
             n == StripZeros(ds)
         IN  IF ds = <<>> \/ Len(n) > 7 THEN <<"bad">>
             ELSE IF hex THEN IF \A i \in 1..Len(ds) : IsHex(ds[i]) THEN <<"num", HexVal(n)>> ELSE <<"bad">>
             ELSE IF AllDigits(ds) THEN <<"num", NatVal(n)>> ELSE <<"bad">>
    ELSE IF IsName(cs) THEN <<"ent", name>> ELSE <<"noname">>

\* ents maps declared names to pieces; `busy' are the entities being expanded
RECURSIVE Expand(_, _, _, _, _)
Expand(ps, i, ents, busy, attr) ==
    IF i > Len(ps) THEN Good(<<>>)
    ELSE
    LET p == IF ps[i][1] = "ref" THEN Reference(ps[i][2], ps[i][3]) ELSE ps[i]
        rest == Expand(ps, i + 1, ents, busy, attr)
        add(s) == IF rest.ok THEN Good(s \o rest.s) ELSE rest
    IN  CASE p[1] = "s" -> add(Literal(p[2], attr))
          [] p[1] = "num" -> IF IsXmlChar(p[2]) THEN add(<<p[2]>>) ELSE Bad("InvalidOrUnclosedEntity", i)
          [] p[1] = "noname" -> Bad("*", i)
          [] p[1] = "bad" -> Bad("InvalidOrUnclosedEntity", i)
          [] p[1] = "ent" ->
               IF HasKey(Predefined, p[2]) THEN add(Lookup(Predefined, p[2]))
               ELSE IF p[2] \notin busy /\ HasKey(ents, p[2])
               THEN LET v == Expand(Lookup(ents, p[2]), 1, ents, busy \cup {p[2]}, attr)
                    IN  IF v.ok THEN add(v.s) ELSE Bad("*", i)
               ELSE IF p[2] \in busy THEN Bad("*", i) ELSE Bad("UndefinedEntity", i)
Decoded(ps, ents, attr) == Expand(ps, 1, ents, {}, attr)

------------------------------------------------------------------------------
NoTag == [at |-> 0]
NoRun == [on |-> FALSE, s |-> <<>>, at |-> {}]
InitDoc(start, D) ==
    [pat |-> Core(start, D), stack |-> <<>>, phase |-> "prolog", fresh |-> FALSE,
     run |-> NoRun, tag |-> NoTag, ents |-> <<>>, err |-> {}]

Err(k, i) == [k |-> k, at |-> i, sub |-> 0]
Fail(st, errs) == [st EXCEPT !.err = errs, !.phase = "dead"]

------------------------------------------------------------------------------
(* Namespaces (C03).  decls is the sequence of declarations on a tag.        *)
RECURSIVE InScope(_, _)
InScope(prefix, levels) ==
    IF levels = <<>> THEN [found |-> FALSE, uri |-> ""]
    ELSE LET top == levels[Len(levels)]
         IN  IF HasKey(top, prefix) THEN [found |-> TRUE, uri |-> Lookup(top, prefix)]
             ELSE InScope(prefix, SubSeq(levels, 1, Len(levels) - 1))
Levels(st) == [i \in 1..Len(st.stack) |-> st.stack[i].decls] \o <<st.tag.decls>>
Resolve(prefix, levels, isAttr) ==
    IF prefix = "xml" THEN [found |-> TRUE, uri |-> XmlNs]
    ELSE IF prefix = "" /\ isAttr THEN [found |-> TRUE, uri |-> ""]
    ELSE LET r == InScope(prefix, levels)
         IN  IF prefix = "" /\ ~r.found THEN [found |-> TRUE, uri |-> ""] ELSE r

------------------------------------------------------------------------------
(* The end of a start tag.                                                  *)
\* what remains after the attributes, or the index of the first that does not fit
RECURSIVE Attrs(_, _, _)
Attrs(p, as, i) ==
    IF i > Len(as) THEN [pat |-> p, at |-> 0]
    ELSE LET q == AttD(p, as[i].ns, as[i].local, as[i].s)
         IN  IF q = NA THEN [pat |-> NA, at |-> as[i].at] ELSE Attrs(q, as, i + 1)

StartTag(st, i, D) ==
    LET levels == Levels(st)
        en == Resolve(st.tag.prefix, levels, FALSE)
        n == Len(st.tag.attrs)
        rs == [k \in 1..n |-> Resolve(st.tag.attrs[k].prefix, levels, TRUE)]
        tx == [k \in 1..n |-> Decoded(st.tag.attrs[k].ps, st.ents, TRUE)]
        wf == (IF en.found THEN {} ELSE {Err("UndefinedNamespacePrefix", st.tag.at)})
              \cup {Err("UndefinedNamespacePrefix", st.tag.attrs[k].at) : k \in {k \in 1..n : ~rs[k].found}}
              \cup {[k |-> tx[k].k, at |-> st.tag.attrs[k].at, sub |-> tx[k].sub] : k \in {k \in 1..n : ~tx[k].ok}}
              \cup {Err("*", st.tag.attrs[k].at) : k \in {k \in 1..n :
                        \E j \in 1..n : j # k /\ rs[j].found /\ rs[k].found
                            /\ rs[j].uri = rs[k].uri /\ st.tag.attrs[j].local = st.tag.attrs[k].local}}
              \cup {Err("*", st.tag.at) : k \in {k \in 1..n :
                        \E j \in 1..n : j # k /\ st.tag.attrs[j].prefix = st.tag.attrs[k].prefix
                            /\ st.tag.attrs[j].local = st.tag.attrs[k].local}}
              \cup {Err("*", 0) : k \in {k \in 1..Len(st.tag.decls) :
                        \E j \in 1..(k - 1) : st.tag.decls[j][1] = st.tag.decls[k][1]}}
        opened == IF en.found THEN OpenD(st.pat, en.uri, st.tag.local, D) ELSE NA
        \* the attributes that can be judged
        good == SelectSeq([k \in 1..n |-> [ns |-> rs[k].uri, local |-> st.tag.attrs[k].local,
                                           s |-> tx[k].s, at |-> st.tag.attrs[k].at,
                                           ok |-> rs[k].found /\ tx[k].ok]], LAMBDA a : a.ok)
        atts == Attrs(opened, good, 1)
        closed == IF atts.pat = NA THEN NA ELSE CloseD(atts.pat)
        match == IF ~en.found THEN {}
                 ELSE IF opened = NA THEN {Err("NotAllowed", st.tag.at)}
                 ELSE IF atts.pat = NA THEN {Err("NotAllowed", atts.at)}
                 ELSE IF closed = NA THEN {Err("NotAllowed", i)} ELSE {}
    IN  IF wf \cup match # {} THEN Fail(st, wf \cup match)
        ELSE [st EXCEPT !.pat = closed, !.fresh = TRUE, !.tag = NoTag,
                        !.stack = Append(st.stack, [prefix |-> st.tag.prefix, local |-> st.tag.local,
                                                    decls |-> st.tag.decls])]

(* The end of the current text node, if any. *)
Flush(st, sole) ==
    IF ~st.run.on THEN st
    ELSE LET q == ContentD(st.pat, st.run.s, sole)
         IN  IF q = NA THEN Fail(st, {Err("NotAllowed", a) : a \in st.run.at})
             ELSE [st EXCEPT !.pat = q, !.run = NoRun]

(* An end tag (or the second half of an empty-element tag), after the text. *)
EndTag(st0, i) ==
    LET sole == st0.fresh
        st == IF st0.run.on THEN Flush(st0, sole)
              ELSE IF sole THEN [st0 EXCEPT !.pat = ContentD(st0.pat, <<>>, TRUE)]
              ELSE st0
    IN  IF st.phase = "dead" THEN st
        ELSE LET q == EndD(st.pat)
             IN  IF q = NA THEN Fail(st, {Err("NotAllowed", i)})
                 ELSE [st EXCEPT !.pat = q, !.fresh = FALSE,
                                 !.stack = SubSeq(st.stack, 1, Len(st.stack) - 1),
                                 !.phase = IF Len(st.stack) = 1 THEN "epilog" ELSE "content"]

------------------------------------------------------------------------------
Step(st, tok, i, D) ==
    IF st.phase = "dead" THEN st
    ELSE CASE tok[1] \in {"comment", "pi"} -> IF st.tag = NoTag THEN st ELSE Fail(st, {Err("*", 0)})
      [] tok[1] = "decl" -> IF i = 1 THEN st ELSE Fail(st, {Err("*", 0)})
      [] tok[1] = "doctype" -> IF st.phase = "prolog" THEN [st EXCEPT !.ents = SelectSeq(tok[2], LAMBDA e : e[3] = "general")]
                               ELSE Fail(st, {Err("*", 0)})
      [] tok[1] = "open" ->
           IF st.phase = "epilog" \/ st.tag # NoTag THEN Fail(st, {Err("*", 0)})
           ELSE LET f == Flush(st, FALSE)
                IN  IF f.phase = "dead" THEN f
                    ELSE [f EXCEPT !.phase = "content", !.fresh = FALSE,
                                   !.tag = [at |-> i, prefix |-> tok[2], local |-> tok[3],
                                            attrs |-> <<>>, decls |-> <<>>]]
      [] tok[1] = "attr" ->
           IF st.tag = NoTag THEN Fail(st, {Err("*", 0)})
           ELSE [st EXCEPT !.tag.attrs = Append(@, [prefix |-> tok[2], local |-> tok[3],
                                                    ps |-> tok[4], at |-> i])]
      [] tok[1] = "ns" ->
           IF st.tag = NoTag THEN Fail(st, {Err("*", 0)})
           ELSE [st EXCEPT !.tag.decls = Append(@, <<tok[2], tok[3]>>)]
      [] tok[1] = "sgt" -> IF st.tag = NoTag THEN Fail(st, {Err("*", 0)}) ELSE StartTag(st, i, D)
      [] tok[1] = "empty" ->
           IF st.tag = NoTag THEN Fail(st, {Err("*", 0)})
           ELSE LET s == StartTag(st, i, D) IN IF s.phase = "dead" THEN s ELSE EndTag(s, i)
      [] tok[1] = "text" ->
           IF st.phase # "content"
           THEN IF \A k \in 1..Len(tok[2]) : tok[2][k][1] = "s" /\ AllWs(tok[2][k][2])
                THEN st ELSE Fail(st, {Err("*", 0)})
           ELSE IF st.tag # NoTag THEN Fail(st, {Err("*", 0)})
           ELSE LET t == Decoded(tok[2], st.ents, FALSE)
                IN  IF t.ok THEN [st EXCEPT !.run = [on |-> TRUE, s |-> @.s \o t.s, at |-> @.at \cup {i}]]
                    ELSE Fail(st, {[k |-> t.k, at |-> i, sub |-> t.sub]}
                                  \* the text before the faulty token may already be wrong
                                  \cup {Err("NotAllowed", a) : a \in st.run.at})
      [] tok[1] = "cdata" ->
           IF st.phase # "content" \/ st.tag # NoTag THEN Fail(st, {Err("*", 0)})
           ELSE [st EXCEPT !.run = [on |-> TRUE, s |-> @.s \o Literal(tok[2], FALSE), at |-> @.at \cup {i}]]
      [] tok[1] = "close" ->
           IF st.phase # "content" \/ st.tag # NoTag \/ st.stack = <<>> THEN Fail(st, {Err("*", 0)})
           ELSE LET top == st.stack[Len(st.stack)]
                IN  IF top.prefix # tok[2] \/ top.local # tok[3]
                    THEN Fail(st, {Err("*", i)} \cup {Err("NotAllowed", a) : a \in st.run.at})
                    ELSE EndTag(st, i)
      [] tok[1] = "bad" -> Fail(st, {Err("*", 0)})
      [] tok[1] = "eof" -> IF st.phase = "epilog" THEN st ELSE Fail(st, {Err("*", 0)})

Rejected(st) == st.phase = "dead"

(* The pattern describing what is allowed where the rejected tag or text is:
   what remains before it (C20).                                             *)
HintPat(st, tok) ==
    IF tok[1] = "close" /\ st.run.on
    THEN LET f == Flush(st, st.fresh) IN IF f.phase = "dead" THEN st.pat ELSE f.pat
    ELSE st.pat
=============================================================================
