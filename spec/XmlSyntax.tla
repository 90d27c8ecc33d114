----------------------------- MODULE XmlSyntax -------------------------------
(***************************************************************************)
(* The XML syntax: from the XML document that a schema file is to what it  *)
(* says (the abstract schema of Compose).                                  *)
(*                                                                         *)
(* The document is given as what stands in it, before namespaces are       *)
(* looked at:                                                              *)
(*   [k |-> "e", p, n, d, a, ch, at, r]   an element: its prefix and local *)
(*         name; the namespaces it declares, <<prefix, uri>>; its          *)
(*         attributes [p, n, c, s], the value being given as characters    *)
(*         and as a string; its children; its number; and, for a           *)
(*         parameter, the regular expression that its text writes (or      *)
(*         <<>>)                                                           *)
(*   [k |-> "t", c]   text                                                 *)
(*   [k |-> "o"]      a comment or a processing instruction                *)
(*   [k |-> "bad"]    (as the whole) something that is no XML document     *)
(* tab says how the characters of names are written as strings.            *)
(*                                                                         *)
(* Parse yields [ok, un, v]: v is the schema if ok; un says that the       *)
(* document is of a form for which nothing is claimed.                     *)
(***************************************************************************)
EXTENDS Text, TLC

Rn == "http://relaxng.org/ns/structure/1.0"
XmlNs == "http://www.w3.org/XML/1998/namespace"

R(v) == [ok |-> TRUE, un |-> FALSE, v |-> v]
Fail == [ok |-> FALSE, un |-> FALSE, v |-> <<>>]
And(a, b, v) == IF a.ok /\ b.ok THEN [ok |-> TRUE, un |-> a.un \/ b.un, v |-> v]
                ELSE [ok |-> FALSE, un |-> a.un \/ b.un, v |-> <<>>]
\* r, but nothing is claimed if b
Unless(b, r) == [r EXCEPT !.un = @ \/ b]

Range(s) == {s[i] : i \in 1..Len(s)}

------------------------------------------------------------------------------
(* Characters and strings. *)
RECURSIVE Str(_, _)
Str(tab, c) == IF c = <<>> THEN "" ELSE tab[ToString(c[1])] \o Str(tab, Tail(c))
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ IsWs(s[1]) THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ IsWs(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
RECURSIVE SplitAt(_, _)
\* the pieces of s between characters c
SplitAt(s, c) == LET i == Find(s, c, 1)
                 IN  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitAt(SubSeq(s, i + 1, Len(s)), c)
Has(s, c) == Find(s, c, 1) # 0

------------------------------------------------------------------------------
(* Namespaces of the document itself. *)
Bound(ns, p) == p \in {"xml", ""} \/ \E i \in 1..Len(ns) : ns[i][1] = p
Lookup(ns, p) ==
    IF p = "xml" THEN XmlNs
    ELSE LET is == {i \in 1..Len(ns) : ns[i][1] = p}
         IN  IF is = {} THEN "" ELSE ns[CHOOSE i \in is : \A j \in is : j <= i][2]
AttNs(ns, a) == IF a.p = "" THEN "" ELSE Lookup(ns, a.p)

(* Is everything bound, and every attribute of a tag of another name? *)
RECURSIVE WellFormed(_, _)
WellFormed(e, outer) ==
    LET ns == outer \o e.d
    IN  /\ Bound(ns, e.p)
        /\ \A i \in 1..Len(e.a) : Bound(ns, e.a[i].p)
        /\ \A i, j \in 1..Len(e.a) : i < j => <<AttNs(ns, e.a[i]), e.a[i].n>> # <<AttNs(ns, e.a[j]), e.a[j].n>>
        /\ \A i, j \in 1..Len(e.d) : i < j => e.d[i][1] # e.d[j][1]
        /\ \A i \in 1..Len(e.ch) : e.ch[i].k = "e" => WellFormed(e.ch[i], ns)

------------------------------------------------------------------------------
(* What is around an element.  uri: the ns in scope, <<>> or <<u>>; lib: the
   datatype library, libat: where that is said; base: the bases that references are relative to.        *)
AttIdx(e, n) == {i \in 1..Len(e.a) : e.a[i].p = "" /\ e.a[i].n = n}
HasAtt(e, n) == AttIdx(e, n) # {}
Att(e, n) == e.a[CHOOSE i \in AttIdx(e, n) : TRUE]

(* A reference relative to a base, both as sequences of segments: the last one of the base
   is replaced unless it names a directory.                                  *)
Rebase(base, segs) == IF base = <<>> \/ (segs[1] = "" /\ Len(segs) > 1) THEN segs
                      ELSE (IF base[Len(base)] \in {".", ".."} THEN base ELSE SubSeq(base, 1, Len(base) - 1)) \o segs
Segs(V, c) == LET ps == SplitAt(c, 47) IN [i \in 1..Len(ps) |-> Str(V.tab, ps[i])]

Enter(e, V) ==
    LET ns == V.ns \o e.d
        b == {i \in 1..Len(e.a) : e.a[i].p = "xml" /\ e.a[i].n = "base"}
    IN  [V EXCEPT !.ns = ns,
                  !.uri = IF HasAtt(e, "ns") THEN <<Att(e, "ns").s>> ELSE @,
                  !.lib = IF HasAtt(e, "datatypeLibrary") THEN Att(e, "datatypeLibrary").s ELSE @,
                  !.libat = IF HasAtt(e, "datatypeLibrary") THEN e.at ELSE @,
                  !.base = IF b = {} THEN @ ELSE Rebase(@, Segs(V, e.a[CHOOSE i \in b : TRUE].c))]

IsRng(e, V) == e.k = "e" /\ Lookup(V.ns \o e.d, e.p) = Rn
Kids(e, V) == SelectSeq(e.ch, LAMBDA x : IsRng(x, V))
IsEl(e, n) == e.n = n
RECURSIVE TextOf(_)
TextOf(ch) == IF ch = <<>> THEN <<>> ELSE (IF ch[1].k = "t" THEN ch[1].c ELSE <<>>) \o TextOf(Tail(ch))
AnyEl(e) == \E i \in 1..Len(e.ch) : e.ch[i].k = "e"

(* Nothing is claimed about attributes that RELAX NG does not know, nor about
   text where there should be none.                                          *)
OddAtts(e, V, names) ==
    \E i \in 1..Len(e.a) : LET u == AttNs(V.ns, e.a[i])
                           IN  u = Rn \/ (u = "" /\ e.a[i].n \notin names \cup {"ns", "datatypeLibrary"})
OddText(e) == ~AllWs(TextOf(e.ch))
Odd(e, V, names) == OddAtts(e, V, names) \/ OddText(e)

(* Datatype libraries are absolute URIs without a fragment. *)
LibFragment(e) == HasAtt(e, "datatypeLibrary") /\ Has(Att(e, "datatypeLibrary").c, 35)
LibStrange(e) == HasAtt(e, "datatypeLibrary")
                 /\ LET c == Att(e, "datatypeLibrary").c
                        u == IF Has(c, 35) THEN SubSeq(c, 1, Find(c, 35, 1) - 1) ELSE c
                    IN  ~(c = <<>> \/ (Has(u, 58) /\ IsAlpha(u[1])
                                       /\ \A i \in 1..Len(u) : IsAlpha(u[i]) \/ IsDigit(u[i]) \/ u[i] \in {45, 46, 47, 58, 95}))

------------------------------------------------------------------------------
(* Names. *)
\* an NCName, with white space around it
NcOf(V, c) == IF IsNCName(Trim(c)) THEN R(Str(V.tab, Trim(c))) ELSE Fail
\* the name of a definition
DefName(V, c) == LET x == NcOf(V, c) IN IF x.ok /\ x.v = "start" THEN R("\\start") ELSE x

\* a name; uri is the namespace of one without a prefix: <<u>>, or <<>> for that of the place
\* where the file is referred to
QName(V, c, uri) ==
    IF ~Has(c, 58)
    THEN LET l == NcOf(V, c)
         IN  IF ~l.ok THEN Fail ELSE IF uri = <<>> THEN R(<<"d", l.v>>) ELSE R(<<"name", uri[1], l.v>>)
    ELSE LET i == Find(c, 58, 1)
             p == NcOf(V, SubSeq(c, 1, i - 1))
             rest == SubSeq(c, i + 1, Len(c))
             l == NcOf(V, rest)
             odd == (i > 1 /\ IsWs(c[i - 1])) \/ (rest # <<>> /\ IsWs(rest[1]))
         IN  IF ~p.ok \/ ~l.ok THEN Unless(odd, Fail)
             ELSE IF ~(p.v = "xml" \/ \E j \in 1..Len(V.ns) : V.ns[j][1] = p.v) THEN Unless(odd, Fail)
             ELSE Unless(odd, R(<<"name", Lookup(V.ns, p.v), l.v>>))

------------------------------------------------------------------------------
(* Name classes. *)
RECURSIVE Nc(_, _, _), Ncs(_, _, _, _), NcExcept(_, _, _)
\* the alternatives es from i
Ncs(es, i, V, inExcept) ==
    IF es = <<>> THEN Fail
    ELSE LET x == Nc(es[i], V, inExcept)
         IN  IF i = Len(es) THEN x
             ELSE LET y == Ncs(es, i + 1, V, inExcept) IN And(x, y, <<"alt", x.v, y.v>>)
\* what may be within anyName and nsName
NcExcept(e, V, isNs) ==
    LET ks == Kids(e, V)
    IN  IF ks = <<>> THEN R(<<"none">>)
        ELSE IF Len(ks) > 1 \/ ~IsEl(ks[1], "except") THEN Fail
        ELSE LET W == Enter(ks[1], V) IN Unless(Odd(ks[1], W, {}), Ncs(Kids(ks[1], W), 1, W, IF isNs THEN "ns" ELSE "any"))
\* inExcept: "no", or the kind of name class whose exceptions these are
Nc(e, V0, inExcept) ==
    LET V == Enter(e, V0)
    IN  CASE e.n = "name" ->
               Unless(OddAtts(e, V, {}), IF AnyEl(e) THEN Fail ELSE QName(V, TextOf(e.ch), V.uri))
          [] e.n = "anyName" ->
               IF inExcept # "no" THEN Fail
               ELSE LET x == NcExcept(e, V, FALSE) IN Unless(Odd(e, V, {}), And(x, x, <<"anyName", x.v>>))
          [] e.n = "nsName" ->
               LET x == NcExcept(e, V, TRUE)
               IN  Unless(Odd(e, V, {}) \/ inExcept = "ns",
                          And(x, x, IF V.uri = <<>> THEN <<"nsd", x.v>> ELSE <<"nsName", V.uri[1], x.v>>))
          [] e.n = "choice" -> Unless(Odd(e, V, {}), Ncs(Kids(e, V), 1, V, inExcept))
          [] OTHER -> Fail

RECURSIVE NamesXmlns(_)
NamesXmlns(n) ==
    CASE n[1] = "name" -> (n[2] = "" /\ n[3] = "xmlns") \/ n[2] \in {"http://www.w3.org/2000/xmlns", "http://www.w3.org/2000/xmlns/"}
      [] n[1] = "d" -> n[2] = "xmlns"
      [] n[1] = "alt" -> NamesXmlns(n[2]) \/ NamesXmlns(n[3])
      [] n[1] = "nsName" -> n[2] \in {"http://www.w3.org/2000/xmlns", "http://www.w3.org/2000/xmlns/"} \/ NamesXmlns(n[3])
      [] n[1] = "anyName" -> NamesXmlns(n[2])
      [] n[1] = "nsd" -> NamesXmlns(n[2])
      [] OTHER -> FALSE

------------------------------------------------------------------------------
(* Patterns. *)
RECURSIVE Pat(_, _), Pats(_, _, _), Group(_, _), Items(_, _, _, _), Item(_, _, _), Params(_, _, _)

Pats(es, i, V) ==
    IF i > Len(es) THEN R(<<>>)
    ELSE LET x == Pat(es[i], V)  y == Pats(es, i + 1, V) IN And(x, y, <<x.v>> \o y.v)
\* at least one pattern; several are joined by op
Joined(op, es, V) ==
    LET x == Pats(es, 1, V)
    IN  IF es = <<>> THEN Fail ELSE And(x, x, IF Len(es) = 1 THEN x.v[1] ELSE <<op, x.v>>)
Group(es, V) == Joined("group", es, V)

Text1 == <<"text">>
Here(V) == IF V.uri = <<>> THEN <<"none">> ELSE <<"uri", V.uri[1]>>

\* the parameters at the beginning of es, and the number of the first that is none
Params(es, i, V0) ==
    IF i > Len(es) \/ ~IsEl(es[i], "param") THEN [ok |-> TRUE, un |-> FALSE, v |-> <<>>, i |-> i]
    ELSE LET e == es[i]
             V == Enter(e, V0)
             n == IF HasAtt(e, "name") THEN NcOf(V, Att(e, "name").c) ELSE Fail
             more == Params(es, i + 1, V0)
             pat == n.ok /\ n.v = "pattern"
             val == IF pat THEN e.r ELSE TextOf(e.ch)
             me == Unless(OddAtts(e, V, {"name"}) \/ (pat /\ e.r = <<>>), IF AnyEl(e) THEN Fail ELSE n)
         IN  [ok |-> me.ok /\ more.ok, un |-> me.un \/ more.un, i |-> more.i,
              v |-> IF me.ok THEN << <<me.v, val, e.at>> >> \o more.v ELSE <<>>]

Pat(e, V0) ==
    LET V == Enter(e, V0)
        ks == Kids(e, V)
        one(op, names) == LET x == Group(ks, V) IN Unless(Odd(e, V, names), And(x, x, <<op, x.v>>))
        leaf(p) == Unless(Odd(e, V, {}), IF ks = <<>> THEN R(p) ELSE Fail)
        name == IF HasAtt(e, "name") THEN DefName(V, Att(e, "name").c) ELSE Fail
        type == IF HasAtt(e, "type") THEN NcOf(V, Att(e, "type").c) ELSE Fail
        x == CASE e.n \in {"element", "attribute"} ->
                    LET isAtt == e.n = "attribute"
                        short == HasAtt(e, "name")
                        uri == IF ~isAtt THEN V.uri ELSE IF HasAtt(e, "ns") THEN <<Att(e, "ns").s>> ELSE <<"">>
                        n == IF short THEN QName(V, Att(e, "name").c, uri)
                             ELSE IF ks = <<>> THEN Fail ELSE Nc(ks[1], V, "no")
                        rest == IF short THEN ks ELSE Tail(ks)
                        p == IF isAtt /\ rest = <<>> THEN R(Text1)
                             ELSE IF isAtt /\ Len(rest) > 1 THEN Fail ELSE Group(rest, V)
                    IN  Unless(Odd(e, V, {"name"}) \/ (isAtt /\ n.ok /\ NamesXmlns(n.v)),
                               IF ~short /\ ks = <<>> THEN Fail ELSE And(n, p, <<e.n, n.v, p.v, e.at>>))
               [] e.n = "group" -> Unless(Odd(e, V, {}), Group(ks, V))
               [] e.n \in {"choice", "interleave"} -> Unless(Odd(e, V, {}), Joined(e.n, ks, V))
               [] e.n \in {"optional", "zeroOrMore", "oneOrMore", "mixed", "list"} -> one(e.n, {})
               [] e.n = "ref" -> Unless(Odd(e, V, {"name"}), IF ks = <<>> THEN And(name, name, <<"ref", name.v, e.at>>) ELSE Fail)
               [] e.n = "parentRef" -> Unless(Odd(e, V, {"name"}), IF ks = <<>> THEN And(name, name, <<"parentref", name.v, e.at>>) ELSE Fail)
               [] e.n \in {"empty", "text", "notAllowed"} -> leaf(<<e.n>>)
               [] e.n = "value" ->
                    Unless(OddAtts(e, V, {"type"}),
                           IF AnyEl(e) THEN Fail
                           ELSE IF ~HasAtt(e, "type") THEN R(<<"value", <<"uri", "">>, "token", TextOf(e.ch), e.at>>)
                           ELSE And(type, type, <<"value", <<"uri", V.lib, V.libat>>, type.v, TextOf(e.ch), e.at>>))
               [] e.n = "data" ->
                    LET ps == Params(ks, 1, V)
                        ex == ps.i <= Len(ks)
                        W == IF ex THEN Enter(ks[ps.i], V) ELSE V
                        x1 == IF ~ex THEN R(<<"none">>)
                              ELSE IF ~IsEl(ks[ps.i], "except") THEN Fail
                              ELSE Unless(Odd(ks[ps.i], W, {}), Joined("choice", Kids(ks[ps.i], W), W))
                        both == And(ps, x1, <<"data", <<"uri", V.lib, V.libat>>, type.v, ps.v, x1.v, e.at>>)
                    IN  Unless(Odd(e, V, {"type"}), IF ex /\ ps.i < Len(ks) THEN Fail ELSE And(type, both, both.v))
               [] e.n = "externalRef" ->
                    Unless(Odd(e, V, {"href"}) \/ ks # <<>> \/ (HasAtt(e, "href") /\ (Has(Att(e, "href").c, 35) \/ Att(e, "href").c = <<>>)),
                           IF HasAtt(e, "href") THEN R(<<"external", Rebase(V.base, Segs(V, Att(e, "href").c)), Here(V), e.at>>) ELSE Fail)
               [] e.n = "grammar" ->
                    LET is == Items(ks, 1, V, FALSE) IN Unless(Odd(e, V, {}), And(is, is, <<"grammar", is.v, e.at>>))
               [] OTHER -> Fail
    IN  Unless(LibStrange(e), IF LibFragment(e) THEN [Fail EXCEPT !.un = x.un] ELSE x)

Items(es, i, V, over) ==
    IF i > Len(es) THEN R(<<>>)
    ELSE LET x == Item(es[i], V, over)  y == Items(es, i + 1, V, over) IN And(x, y, <<x.v>> \o y.v)

Item(e, V0, over) ==
    LET V == Enter(e, V0)
        ks == Kids(e, V)
        how == IF ~HasAtt(e, "combine") THEN R("=")
               ELSE LET c == Str(V.tab, Trim(Att(e, "combine").c))
                    IN  IF c = "choice" THEN R("|=") ELSE IF c = "interleave" THEN R("&=") ELSE Fail
        name == IF HasAtt(e, "name") THEN DefName(V, Att(e, "name").c) ELSE Fail
        x == CASE e.n = "start" ->
                    LET p == Group(ks, V)
                    IN  Unless(Odd(e, V, {"combine"}), IF Len(ks) # 1 THEN Fail ELSE And(how, p, <<"define", "start", how.v, p.v, e.at>>))
               [] e.n = "define" ->
                    LET p == Group(ks, V)
                        b == And(name, p, <<"define", name.v, how.v, p.v, e.at>>)
                    IN  Unless(Odd(e, V, {"combine", "name"}), And(how, b, b.v))
               [] e.n = "div" -> LET is == Items(ks, 1, V, over) IN Unless(Odd(e, V, {}), And(is, is, <<"div", is.v>>))
               [] e.n = "include" /\ ~over ->
                    LET is == Items(ks, 1, V, TRUE)
                    IN  Unless(Odd(e, V, {"href"}) \/ (HasAtt(e, "href") /\ (Has(Att(e, "href").c, 35) \/ Att(e, "href").c = <<>>)),
                               IF ~HasAtt(e, "href") THEN Fail
                               ELSE And(is, is, <<"include", Rebase(V.base, Segs(V, Att(e, "href").c)), Here(V), is.v, e.at>>))
               [] OTHER -> Fail
    IN  Unless(LibStrange(e) \/ LibFragment(e), x)

------------------------------------------------------------------------------
\* the document `doc' (the element that is its root)
Parse(doc, tab) ==
    IF doc.k # "e" THEN Fail
    ELSE IF ~WellFormed(doc, <<>>) THEN Fail
    ELSE LET V == [ns |-> <<>>, uri |-> <<>>, lib |-> "", libat |-> -1, base |-> <<>>, tab |-> tab]
             p == Pat(doc, V)
         IN  IF ~IsRng(doc, V) THEN Fail
             ELSE And(p, p, [decls |-> <<>>, body |-> p.v])
=============================================================================
