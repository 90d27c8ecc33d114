-------------------------------- MODULE Rng ---------------------------------
(***************************************************************************)
(* RELAX NG patterns and their meaning.                                    *)
(*                                                                         *)
(* Surface patterns (what a schema writes):                                *)
(*   <<"empty">> <<"notAllowed">> <<"text">>                               *)
(*   <<"choice", <<p..>>>> <<"group", <<p..>>>> <<"interleave", <<p..>>>>  *)
(*   <<"optional", p>> <<"zeroOrMore", p>> <<"oneOrMore", p>> <<"mixed", p>>*)
(*   <<"element", nc, p>> <<"attribute", nc, p>> <<"list", p>>             *)
(*   <<"value", type, chars>> <<"data", type, params, except>>             *)
(*   <<"ref", name>>                                                       *)
(*   <<"oneof", strings, except>>: of a datatype only known by its effect  *)
(*       on the strings that are asked for (a compiled schema's)           *)
(* name classes:                                                           *)
(*   <<"name", ns, local>> <<"nsName", ns, except>> <<"anyName", except>>  *)
(*   <<"alt", a, b>>                (except is <<"none">> when absent)      *)
(*                                                                         *)
(* Core patterns (the state of the validator) have only empty, notAllowed, *)
(* text, <<"or", S>> for a set S of at least two patterns, binary group    *)
(* and interleave, oneOrMore, attribute, element, list, value, data and    *)
(* <<"after", p, q>>: p is what remains of the innermost open element and  *)
(* q what follows its end tag.  The body of a core element is kept as a    *)
(* surface pattern, so that recursive schemas have finite core patterns.   *)
(***************************************************************************)
EXTENDS Datatypes

NA == <<"notAllowed">>
EMPTY == <<"empty">>
TEXT == <<"text">>

------------------------------------------------------------------------------
(* Name classes.                                                            *)
RECURSIVE NcIn(_, _, _)
NcIn(nc, ns, local) ==
    CASE nc[1] = "name" -> nc[2] = ns /\ nc[3] = local
      [] nc[1] = "nsName" -> nc[2] = ns /\ ~NcIn(nc[3], ns, local)
      [] nc[1] = "anyName" -> ~NcIn(nc[2], ns, local)
      [] nc[1] = "alt" -> NcIn(nc[2], ns, local) \/ NcIn(nc[3], ns, local)
      [] nc[1] = "none" -> FALSE

------------------------------------------------------------------------------
(* Constructors keep core patterns in a normal form in which a pattern that
   cannot match anything because a part of it cannot is <<"notAllowed">>.    *)
Alts(p) == IF p[1] = "or" THEN p[2] ELSE IF p[1] = "notAllowed" THEN {} ELSE {p}
OrSet(ps) == IF ps = {} THEN NA
            ELSE IF Cardinality(ps) = 1 THEN CHOOSE x \in ps : TRUE
            ELSE <<"or", ps>>
Or(p, q) == OrSet(Alts(p) \cup Alts(q))
Group(p, q) == IF p = NA \/ q = NA THEN NA
               ELSE IF p = EMPTY THEN q ELSE IF q = EMPTY THEN p
               ELSE <<"group", p, q>>
Inter(p, q) == IF p = NA \/ q = NA THEN NA
               ELSE IF p = EMPTY THEN q ELSE IF q = EMPTY THEN p
               ELSE <<"interleave", p, q>>
Plus(p) == IF p \in {NA, EMPTY} THEN p ELSE <<"oneOrMore", p>>
Star(p) == Or(Plus(p), EMPTY)
After(p, q) == IF p = NA \/ q = NA THEN NA ELSE <<"after", p, q>>

(* From surface to core; D maps names to surface patterns.  References are
   replaced by their definitions everywhere except inside element bodies.    *)
RECURSIVE Core(_, _), CoreAll(_, _, _)
Core(p, D) ==
    CASE p[1] \in {"empty", "notAllowed", "text", "value"} -> p
      [] p[1] = "choice" -> CoreAll("choice", p[2], D)
      [] p[1] = "group" -> CoreAll("group", p[2], D)
      [] p[1] = "interleave" -> CoreAll("interleave", p[2], D)
      [] p[1] = "optional" -> Or(Core(p[2], D), EMPTY)
      [] p[1] = "zeroOrMore" -> Star(Core(p[2], D))
      [] p[1] = "oneOrMore" -> Plus(Core(p[2], D))
      [] p[1] = "mixed" -> Inter(Core(p[2], D), TEXT)
      [] p[1] = "ref" -> Core(D[p[2]], D)
      [] p[1] = "element" -> p
      [] p[1] = "attribute" -> <<"attribute", p[2], Core(p[3], D)>>
      [] p[1] = "list" -> <<"list", Core(p[2], D)>>
      [] p[1] = "data" -> <<"data", p[2], p[3], IF p[4] = <<"none">> THEN NA ELSE Core(p[4], D)>>
      [] p[1] = "oneof" -> <<"oneof", p[2], IF p[3] = <<"none">> THEN NA ELSE Core(p[3], D)>>
CoreAll(op, ps, D) ==
    IF Len(ps) = 1 THEN Core(ps[1], D)
    ELSE LET h == Core(ps[1], D)  t == CoreAll(op, Tail(ps), D)
         IN  CASE op = "choice" -> Or(h, t)
               [] op = "group" -> Group(h, t)
               [] op = "interleave" -> Inter(h, t)

------------------------------------------------------------------------------
RECURSIVE Nullable(_)
Nullable(p) ==
    CASE p[1] = "or" -> \E x \in p[2] : Nullable(x)
      [] p[1] \in {"group", "interleave"} -> Nullable(p[2]) /\ Nullable(p[3])
      [] p[1] = "oneOrMore" -> Nullable(p[2])
      [] p[1] \in {"empty", "text"} -> TRUE
      [] OTHER -> FALSE

(* What remains of p after the text s (one complete text node, or one
   attribute value, or one item of a list).                                  *)
RECURSIVE TextD(_, _), ListD(_, _)
TextD(p, s) ==
    CASE p[1] = "or" -> OrSet(UNION {Alts(TextD(x, s)) : x \in p[2]})
      [] p[1] = "interleave" -> Or(Inter(TextD(p[2], s), p[3]), Inter(p[2], TextD(p[3], s)))
      [] p[1] = "group" ->
           LET x == Group(TextD(p[2], s), p[3])
           IN  IF Nullable(p[2]) THEN Or(x, TextD(p[3], s)) ELSE x
      [] p[1] = "after" -> After(TextD(p[2], s), p[3])
      [] p[1] = "oneOrMore" -> Group(TextD(p[2], s), Or(p, EMPTY))
      [] p[1] = "text" -> p
      [] p[1] = "value" -> IF ValEq(p[2], p[3], s) THEN EMPTY ELSE NA
      [] p[1] = "data" -> IF DtValid(p[2], p[3], s) /\ ~Nullable(TextD(p[4], s)) THEN EMPTY ELSE NA
      [] p[1] = "oneof" -> IF (\E i \in 1..Len(p[2]) : p[2][i] = s) /\ ~Nullable(TextD(p[3], s)) THEN EMPTY ELSE NA
      [] p[1] = "list" -> IF Nullable(ListD(p[2], SplitWs(s))) THEN EMPTY ELSE NA
      [] OTHER -> NA
ListD(p, words) == IF words = <<>> THEN p ELSE ListD(TextD(p, words[1]), Tail(words))

(* A start tag's name. *)
GroupAfters(d, q) == OrSet({After(x[2], Group(x[3], q)) : x \in Alts(d)} \ {NA})
InterAfters(d, q) == OrSet({After(x[2], Inter(x[3], q)) : x \in Alts(d)} \ {NA})
AfterAfters(d, q) == OrSet({After(x[2], After(x[3], q)) : x \in Alts(d)} \ {NA})
RECURSIVE OpenD(_, _, _, _)
OpenD(p, ns, local, D) ==
    CASE p[1] = "or" -> OrSet(UNION {Alts(OpenD(x, ns, local, D)) : x \in p[2]})
      [] p[1] = "element" -> IF NcIn(p[2], ns, local) THEN After(Core(p[3], D), EMPTY) ELSE NA
      [] p[1] = "interleave" ->
           Or(InterAfters(OpenD(p[2], ns, local, D), p[3]),
              InterAfters(OpenD(p[3], ns, local, D), p[2]))
      [] p[1] = "oneOrMore" -> GroupAfters(OpenD(p[2], ns, local, D), Or(p, EMPTY))
      [] p[1] = "group" ->
           LET x == GroupAfters(OpenD(p[2], ns, local, D), p[3])
           IN  IF Nullable(p[2]) THEN Or(x, OpenD(p[3], ns, local, D)) ELSE x
      [] p[1] = "after" -> AfterAfters(OpenD(p[2], ns, local, D), p[3])
      [] OTHER -> NA

(* One attribute. *)
ValueOk(p, s) == (Nullable(p) /\ AllWs(s)) \/ Nullable(TextD(p, s))
RECURSIVE AttD(_, _, _, _)
AttD(p, ns, local, s) ==
    CASE p[1] = "after" -> After(AttD(p[2], ns, local, s), p[3])
      [] p[1] = "or" -> OrSet(UNION {Alts(AttD(x, ns, local, s)) : x \in p[2]})
      [] p[1] = "group" -> Or(Group(AttD(p[2], ns, local, s), p[3]), Group(p[2], AttD(p[3], ns, local, s)))
      [] p[1] = "interleave" -> Or(Inter(AttD(p[2], ns, local, s), p[3]), Inter(p[2], AttD(p[3], ns, local, s)))
      [] p[1] = "oneOrMore" -> Group(AttD(p[2], ns, local, s), Or(p, EMPTY))
      [] p[1] = "attribute" -> IF NcIn(p[2], ns, local) /\ ValueOk(p[3], s) THEN EMPTY ELSE NA
      [] OTHER -> NA

(* The end of a start tag: attributes still required are now missing. *)
RECURSIVE CloseD(_)
CloseD(p) ==
    CASE p[1] = "after" -> After(CloseD(p[2]), p[3])
      [] p[1] = "or" -> OrSet(UNION {Alts(CloseD(x)) : x \in p[2]})
      [] p[1] = "group" -> Group(CloseD(p[2]), CloseD(p[3]))
      [] p[1] = "interleave" -> Inter(CloseD(p[2]), CloseD(p[3]))
      [] p[1] = "oneOrMore" -> Plus(CloseD(p[2]))
      [] p[1] = "attribute" -> NA
      [] OTHER -> p

(* An end tag. *)
EndD(p) == OrSet(UNION {IF x[1] = "after" /\ Nullable(x[2]) THEN Alts(x[3]) ELSE {} : x \in Alts(p)})

(* Character content: RELAX NG section 6.2 with the streaming reading of
   Clark's algorithm: `sole' says the text is all the content of its element. *)
ContentD(p, s, sole) ==
    IF sole THEN (IF AllWs(s) THEN Or(p, TextD(p, s)) ELSE TextD(p, s))
    ELSE IF AllWs(s) THEN p ELSE TextD(p, s)

------------------------------------------------------------------------------
(* The elements a pattern allows next, as a set of name classes (C20).       *)
RECURSIVE Heads(_)
Heads(p) ==
    CASE p[1] = "or" -> UNION {Heads(x) : x \in p[2]}
      [] p[1] = "element" -> {p[2]}
      [] p[1] = "interleave" -> Heads(p[2]) \cup Heads(p[3])
      [] p[1] = "group" -> Heads(p[2]) \cup (IF Nullable(p[2]) THEN Heads(p[3]) ELSE {})
      [] p[1] \in {"oneOrMore", "after"} -> Heads(p[2])
      [] OTHER -> {}
=============================================================================
