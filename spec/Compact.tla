------------------------------ MODULE Compact --------------------------------
(***************************************************************************)
(* The compact syntax: from the tokens of a schema file to what it says    *)
(* (the abstract schema of Compose).                                       *)
(*                                                                         *)
(* A token is a record with k, the kind, at, its position, and             *)
(*   "w": s         an unquoted word (a name or a keyword)                 *)
(*   "q": s         a quoted identifier                                    *)
(*   "c": p, s      prefix:local         "n": p       prefix:*             *)
(*   "s": s         a symbol: { } ( ) [ ] , & | ? * + - = |= &= ~ >>       *)
(*   "l": c, u, f, r   a literal segment: its characters, and the same as  *)
(*                  a URI, as the segments of a file name, and as the      *)
(*                  regular expression that it writes (or <<>>)            *)
(*   "bad"          something that is no token                             *)
(*   "x": e, pc, p, c, s   what is written like a word, a quoted identifier *)
(*                  (e is a backslash) or, if pc is not empty, prefix:local, *)
(*                  with characters c and pc that may not be those of names *)
(* White space and comments separate tokens and are not tokens.            *)
(*                                                                         *)
(* Parse yields [ok, un, v]: v is the schema if ok; un says that the text  *)
(* is of a form for which nothing is claimed.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Text

Keywords == {"attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar",
             "include", "inherit", "list", "mixed", "namespace", "notAllowed", "parent", "start",
             "string", "text", "token"}

\* whether what looks like a name is one, and is a token
Token(t) == IF t.k # "x" THEN t
            ELSE IF ~IsNCName(t.c) \/ (t.pc # <<>> /\ ~IsNCName(t.pc)) THEN [k |-> "bad", at |-> t.at]
            ELSE IF t.pc # <<>> THEN [k |-> "c", p |-> t.p, s |-> t.s, at |-> t.at]
            ELSE [k |-> IF t.e = "" THEN "w" ELSE "q", s |-> t.s, at |-> t.at]

EofTok == [k |-> "eof", at |-> 0]
\* the tokens with something around them, so that looking ahead needs no care
Padded(t) == TLCEval([i \in 0..(Len(t) + 9) |-> IF i \in 1..Len(t) THEN t[i] ELSE EofTok])
IsSym(t, i, s) == t[i].k = "s" /\ t[i].s = s
IsWord(t, i, s) == t[i].k = "w" /\ t[i].s = s

R(v, i) == [ok |-> TRUE, un |-> FALSE, v |-> v, i |-> i]
Fail == [ok |-> FALSE, un |-> FALSE, v |-> <<>>, i |-> 0]
Unclaimed == [ok |-> FALSE, un |-> TRUE, v |-> <<>>, i |-> 0]

------------------------------------------------------------------------------
\* identifierOrKeyword
IsName(t, i) == t[i].k \in {"w", "q"}

(* Literals. *)
JoinSegs(a, b) == SubSeq(a, 1, Len(a) - 1) \o <<a[Len(a)] \o b[1]>> \o Tail(b)
RECURSIVE Lit(_, _)
Lit(t, i) ==
    IF t[i].k # "l" THEN Fail
    ELSE LET me == [c |-> t[i].c, u |-> t[i].u, f |-> t[i].f, r |-> t[i].r]
         IN  IF ~IsSym(t, i + 1, "~") THEN R(me, i + 1)
             ELSE LET x == Lit(t, i + 2)
                  IN  IF ~x.ok THEN x
                      ELSE R([c |-> me.c \o x.v.c, u |-> me.u \o x.v.u, f |-> JoinSegs(me.f, x.v.f), r |-> <<>>], x.i)

------------------------------------------------------------------------------
(* Annotations, which have no meaning here: [ attributes elements ] before a
   pattern, a name class, a parameter or an item; >> element after a pattern or
   a name class; and elements between the items of a grammar.                *)
RECURSIVE AnnAtts(_, _), AnnParts(_, _, _)
\* name = literal ...
AnnAtts(t, i) ==
    IF ~(t[i].k \in {"w", "q", "c"} /\ IsSym(t, i + 1, "=")) THEN R(<<>>, i)
    ELSE LET x == Lit(t, i + 2)
         IN  IF ~x.ok THEN x
             ELSE IF t[i].k # "c" THEN Unclaimed
             ELSE AnnAtts(t, x.i)
IsAnnEl(t, i) == t[i].k \in {"w", "q", "c"} /\ IsSym(t, i + 1, "[")
AnnEl(t, i) ==
    LET a == AnnAtts(t, i + 2)
        b == IF a.ok THEN AnnParts(t, a.i, TRUE) ELSE a
    IN  IF ~b.ok THEN b
        ELSE IF ~IsSym(t, b.i, "]") THEN Fail
        ELSE IF t[i].k # "c" THEN Unclaimed
        ELSE R(<<>>, b.i + 1)
\* elements, and literals if lits
AnnParts(t, i, lits) ==
    IF IsAnnEl(t, i) THEN (LET x == AnnEl(t, i) IN IF x.ok THEN AnnParts(t, x.i, lits) ELSE x)
    ELSE IF lits /\ t[i].k = "l" THEN (LET x == Lit(t, i) IN IF x.ok THEN AnnParts(t, x.i, lits) ELSE x)
    ELSE R(<<>>, i)
\* the annotations before something
Lead(t, i) ==
    IF ~IsSym(t, i, "[") THEN R(<<>>, i)
    ELSE LET a == AnnAtts(t, i + 1)
             b == IF a.ok THEN AnnParts(t, a.i, FALSE) ELSE a
         IN  IF ~b.ok THEN b ELSE IF IsSym(t, b.i, "]") THEN R(<<>>, b.i + 1) ELSE Fail
RECURSIVE Follow(_, _)
Follow(t, i) ==
    IF ~IsSym(t, i, ">>") THEN R(<<>>, i)
    ELSE IF ~IsAnnEl(t, i + 1) THEN Fail
    ELSE LET x == AnnEl(t, i + 1) IN IF x.ok THEN Follow(t, x.i) ELSE x
\* r and the annotations after it
Followed(t, r) ==
    IF ~r.ok THEN r ELSE LET f == Follow(t, r.i) IN IF f.ok THEN R(r.v, f.i) ELSE f

------------------------------------------------------------------------------
(* Identifiers. *)
\* identifier: what a definition is called.  \start is not the start.
IsIdent(t, i) == t[i].k = "q" \/ (t[i].k = "w" /\ t[i].s \notin Keywords)
Ident(tok) == IF tok.s = "start" THEN "\\start" ELSE tok.s

------------------------------------------------------------------------------
(* Name classes. *)
RECURSIVE NameClass(_, _), BasicNc(_, _), PlainNc(_, _)
BasicNc(t, i) == LET l == Lead(t, i) IN IF l.ok THEN Followed(t, PlainNc(t, l.i)) ELSE l
ExceptNc(t, i) == IF IsSym(t, i, "-") THEN BasicNc(t, i + 1) ELSE R(<<"none">>, i)
PlainNc(t, i) ==
    CASE t[i].k \in {"w", "q"} -> R(<<"u", t[i].s>>, i + 1)
      [] t[i].k = "c" -> R(<<"q", t[i].p, t[i].s, t[i].at>>, i + 1)
      [] t[i].k = "n" -> LET x == ExceptNc(t, i + 1)
                            IN  IF x.ok THEN R(<<"nsq", t[i].p, x.v, t[i].at>>, x.i) ELSE x
      [] IsSym(t, i, "*") -> LET x == ExceptNc(t, i + 1)
                             IN  IF x.ok THEN R(<<"anyName", x.v>>, x.i) ELSE x
      [] IsSym(t, i, "(") -> LET x == NameClass(t, i + 1)
                             IN  IF ~x.ok THEN x
                                 ELSE IF IsSym(t, x.i, ")") THEN R(x.v, x.i + 1) ELSE Fail
      [] OTHER -> Fail
NameClass(t, i) ==
    LET x == BasicNc(t, i)
    IN  IF ~x.ok \/ ~IsSym(t, x.i, "|") THEN x
        ELSE IF IsSym(t, i + 1, "-") THEN Unclaimed       \* * - a | b
        ELSE LET y == NameClass(t, x.i + 1)
             IN  IF y.ok THEN R(<<"alt", x.v, y.v>>, y.i) ELSE y

------------------------------------------------------------------------------
(* Patterns. *)
RECURSIVE Pat(_, _), Particles(_, _, _), Primary(_, _), Items(_, _, _), Params(_, _)

Braced(t, i, mk(_)) ==
    IF ~IsSym(t, i, "{") THEN Fail
    ELSE LET x == Pat(t, i + 1)
         IN  IF ~x.ok THEN x
             ELSE IF IsSym(t, x.i, "}") THEN R(mk(x.v), x.i + 1) ELSE Fail

Inherit(t, i) ==
    IF ~IsWord(t, i, "inherit") THEN R(<<"none">>, i)
    ELSE IF IsSym(t, i + 1, "=") /\ IsName(t, i + 2) THEN R(<<"p", t[i + 2].s, t[i + 2].at>>, i + 3)
    ELSE Fail

Connector(t, i) == IF t[i].k = "s" /\ t[i].s \in {",", "&", "|"} THEN t[i].s ELSE ""
Postfix(t, i) == IF t[i].k = "s" /\ t[i].s \in {"?", "*", "+"} THEN t[i].s ELSE ""
OpName(s) == CASE s = "," -> "group" [] s = "&" -> "interleave" [] s = "|" -> "choice"
               [] s = "?" -> "optional" [] s = "*" -> "zeroOrMore" [] s = "+" -> "oneOrMore"

\* data with an exception, without parentheses around it
OpenExcept(t, i, x) == x.v[1] = "data" /\ x.v[5] # <<"none">> /\ ~IsSym(t, Lead(t, i).i, "(")

Annotated(t, i) == LET l == Lead(t, i) IN IF l.ok THEN Followed(t, Primary(t, l.i)) ELSE l
Particle(t, i) ==
    LET x == Annotated(t, i)
    IN  IF ~x.ok \/ Postfix(t, x.i) = "" THEN x
        ELSE IF OpenExcept(t, i, x) \/ Postfix(t, x.i + 1) # "" \/ IsSym(t, x.i + 1, ">>") THEN Unclaimed
        ELSE R(<<OpName(Postfix(t, x.i)), x.v>>, x.i + 1)

\* the particles from i joined by s, which "" leaves open
Particles(t, i, s) ==
    LET x == Particle(t, i)
        op == Connector(t, x.i)
    IN  IF ~x.ok THEN x
        ELSE IF op = "" THEN R(<<s, <<x.v>> >>, x.i)
        ELSE IF OpenExcept(t, i, x) \/ (s # "" /\ op # s) THEN Unclaimed
        ELSE LET y == Particles(t, x.i + 1, op)
             IN  IF y.ok THEN R(<<op, <<x.v>> \o y.v[2]>>, y.i) ELSE y
Pat(t, i) ==
    LET x == Particles(t, i, "")
    IN  IF ~x.ok THEN x
        ELSE IF x.v[1] = "" THEN R(x.v[2][1], x.i)
        ELSE R(<<OpName(x.v[1]), x.v[2]>>, x.i)

\* after a datatype's name, which was at position i0
AfterType(t, i, lib, name, at) ==
    IF t[i].k = "l"
    THEN LET x == Lit(t, i) IN IF x.ok THEN R(<<"value", lib, name, x.v.c, at>>, x.i) ELSE x
    ELSE LET ps == IF IsSym(t, i, "{") THEN Params(t, i + 1) ELSE R(<<>>, i)
         IN  IF ~ps.ok THEN ps
             ELSE IF ~IsSym(t, ps.i, "-") THEN R(<<"data", lib, name, ps.v, <<"none">>, at>>, ps.i)
             ELSE LET e == Annotated(t, ps.i + 1)
                  IN  IF e.ok THEN R(<<"data", lib, name, ps.v, e.v, at>>, e.i) ELSE e
Params(t, i) ==
    IF IsSym(t, i, "}") THEN R(<<>>, i + 1)
    ELSE IF IsSym(t, i, "[") THEN (LET l == Lead(t, i) IN IF ~l.ok THEN l ELSE IF IsName(t, l.i) THEN Params(t, l.i) ELSE Fail)
    ELSE IF ~IsName(t, i) \/ ~IsSym(t, i + 1, "=") THEN Fail
    ELSE LET x == Lit(t, i + 2)
         IN  IF ~x.ok THEN x
             ELSE LET rest == Params(t, x.i)
                  IN  IF ~rest.ok THEN rest
                      ELSE R(<< <<t[i].s, IF t[i].s = "pattern" THEN x.v.r ELSE x.v.c, t[i].at>> >> \o rest.v, rest.i)

Primary(t, i) ==
    LET k == t[i].k
        w == IF k = "w" THEN t[i].s ELSE ""
        at == t[i].at
    IN  CASE w \in {"element", "attribute"} ->
               LET n == NameClass(t, i + 1)
               IN  IF ~n.ok THEN n ELSE Braced(t, n.i, LAMBDA p : <<w, n.v, p, at>>)
          [] w \in {"list", "mixed"} -> Braced(t, i + 1, LAMBDA p : <<w, p>>)
          [] w \in {"empty", "text", "notAllowed"} -> R(<<w>>, i + 1)
          [] w = "parent" -> IF IsIdent(t, i + 1) THEN R(<<"parentref", Ident(t[i + 1]), t[i + 1].at>>, i + 2) ELSE Fail
          [] w = "external" ->
               LET x == Lit(t, i + 1)
               IN  IF ~x.ok THEN x
                   ELSE LET h == Inherit(t, x.i)
                        IN  IF h.ok THEN R(<<"external", x.v.f, h.v, t[i + 1].at>>, h.i) ELSE h
          [] w = "grammar" ->
               IF ~IsSym(t, i + 1, "{") THEN Fail
               ELSE LET x == Items(t, i + 2, FALSE)
                    IN  IF ~x.ok THEN x
                        ELSE IF IsSym(t, x.i, "}") THEN R(<<"grammar", x.v, at>>, x.i + 1) ELSE Fail
          [] w \in {"string", "token"} -> AfterType(t, i + 1, <<"uri", "">>, w, at)
          [] k = "c" -> AfterType(t, i + 1, <<"pre", t[i].p>>, t[i].s, at)
          [] k = "l" -> AfterType(t, i, <<"uri", "">>, "token", at)
          [] IsIdent(t, i) -> R(<<"ref", Ident(t[i]), at>>, i + 1)
          [] IsSym(t, i, "(") ->
               LET x == Pat(t, i + 1)
               IN  IF ~x.ok THEN x ELSE IF IsSym(t, x.i, ")") THEN R(x.v, x.i + 1) ELSE Fail
          [] OTHER -> Fail

------------------------------------------------------------------------------
(* Grammars. *)
IsAssign(t, i) == t[i].k = "s" /\ t[i].s \in {"=", "|=", "&="}
IsDefine(t, i) == (IsIdent(t, i) \/ IsWord(t, i, "start")) /\ IsAssign(t, i + 1)

Item(t, i, overriding) ==
    IF IsDefine(t, i)
    THEN LET x == Pat(t, i + 2)
         IN  IF x.ok THEN R(<<"define", IF t[i].k = "w" THEN t[i].s ELSE Ident(t[i]), t[i + 1].s, x.v, t[i].at>>, x.i) ELSE x
    ELSE IF IsWord(t, i, "div")
    THEN IF ~IsSym(t, i + 1, "{") THEN Fail
         ELSE LET x == Items(t, i + 2, overriding)
              IN  IF ~x.ok THEN x
                  ELSE IF IsSym(t, x.i, "}") THEN R(<<"div", x.v>>, x.i + 1) ELSE Fail
    ELSE IF IsWord(t, i, "include") /\ ~overriding
    THEN LET x == Lit(t, i + 1)
         IN  IF ~x.ok THEN x
             ELSE LET h == Inherit(t, x.i)
                  IN  IF ~h.ok THEN h
                      ELSE IF ~IsSym(t, h.i, "{") THEN R(<<"include", x.v.f, h.v, <<>>, t[i + 1].at>>, h.i)
                      ELSE LET o == Items(t, h.i + 1, TRUE)
                           IN  IF ~o.ok THEN o
                               ELSE IF IsSym(t, o.i, "}") THEN R(<<"include", x.v.f, h.v, o.v, t[i + 1].at>>, o.i + 1)
                               ELSE Fail
    ELSE Fail
\* up to the closing brace or the end; s: what has been read, until end
NextItem(t, s, overriding) ==
    LET i == s.i
        l == Lead(t, i)
        e == AnnEl(t, i)
        x == Item(t, l.i, overriding)
        bad(r) == [end |-> TRUE, r |-> r, items |-> <<>>, i |-> i]
    IN  IF t[i].k = "eof" \/ IsSym(t, i, "}") THEN [s EXCEPT !.end = TRUE, !.r = R(s.items, i)]
        ELSE IF IsAnnEl(t, i) THEN (IF e.ok THEN [s EXCEPT !.i = e.i] ELSE bad(e))
        ELSE IF ~l.ok THEN bad(l)
        ELSE IF IsSym(t, i, "[") /\ IsAnnEl(t, l.i) THEN bad(Unclaimed)
        ELSE IF x.ok THEN [s EXCEPT !.items = Append(@, x.v), !.i = x.i] ELSE bad(x)
\* at most as many as there are tokens left, and the end
Items(t, i, overriding) ==
    FoldLeft(LAMBDA s, k : IF s.end THEN s ELSE NextItem(t, s, overriding), [end |-> FALSE, r |-> Fail, items |-> <<>>, i |-> i],
             [k \in 1..(Cardinality(DOMAIN t) - i) |-> k]).r

(* Declarations: <<"ns", prefix, uri>>, <<"default", prefix, uri>> with uri
   <<"uri", u>> or <<"inherit">>, and <<"dt", prefix, u>>.                   *)
NsUri(t, i) == IF IsWord(t, i, "inherit") THEN R(<<"inherit">>, i + 1)
               ELSE LET x == Lit(t, i) IN IF x.ok THEN R(<<"uri", x.v.u>>, x.i) ELSE x
Decl(t, i) ==
    CASE IsWord(t, i, "namespace") ->
           IF ~IsName(t, i + 1) \/ ~IsSym(t, i + 2, "=") THEN Fail
           ELSE LET x == NsUri(t, i + 3) IN IF x.ok THEN R(<<"ns", t[i + 1].s, x.v>>, x.i) ELSE x
      [] IsWord(t, i, "default") ->
           IF ~IsWord(t, i + 1, "namespace") THEN Fail
           ELSE LET j == IF IsName(t, i + 2) THEN i + 3 ELSE i + 2
                IN  IF ~IsSym(t, j, "=") THEN Fail
                    ELSE LET x == NsUri(t, j + 1)
                         IN  IF x.ok THEN R(<<"default", IF j = i + 3 THEN t[i + 2].s ELSE "", x.v>>, x.i) ELSE x
      [] OTHER ->
           IF ~IsName(t, i + 1) \/ ~IsSym(t, i + 2, "=") THEN Fail
           ELSE LET x == Lit(t, i + 3) IN IF x.ok THEN R(<<"dt", t[i + 1].s, x.v.u>>, x.i) ELSE x
Decls(t, i) ==
    FoldLeft(LAMBDA s, k :
                 IF s.end THEN s
                 ELSE IF ~(t[s.i].k = "w" /\ t[s.i].s \in {"namespace", "default", "datatypes"})
                 THEN [s EXCEPT !.end = TRUE, !.r = R(s.ds, s.i)]
                 ELSE LET x == Decl(t, s.i)
                      IN  IF x.ok THEN [s EXCEPT !.ds = Append(@, x.v), !.i = x.i] ELSE [s EXCEPT !.end = TRUE, !.r = x],
             [end |-> FALSE, r |-> Fail, ds |-> <<>>, i |-> i], [k \in 1..Cardinality(DOMAIN t) |-> k]).r

\* A file is [decls, body]; a body that is a single grammar pattern is that grammar.
Parse(source) ==
    LET toks == TLCEval([i \in 1..Len(source) |-> Token(source[i])])
        t == Padded(toks)
        d == Decls(t, 1)
        l == IF d.ok THEN Lead(t, d.i) ELSE d
        g == \/ IsDefine(t, l.i) \/ (t[l.i].k = "w" /\ t[l.i].s \in {"div", "include"}) \/ IsAnnEl(t, l.i)
        b == IF g THEN Items(t, d.i, FALSE) ELSE Pat(t, d.i)
    IN  IF \E i \in 1..Len(toks) : toks[i].k = "bad" THEN Fail
        ELSE IF ~d.ok THEN d
        ELSE IF ~l.ok THEN l
        ELSE IF d.i > Len(toks) THEN Unclaimed            \* a grammar with nothing in it
        ELSE IF ~b.ok THEN b
        ELSE IF b.i <= Len(toks) THEN Fail
        ELSE IF ~g /\ IsSym(t, l.i, "(") /\ b.v[1] = "grammar" THEN Unclaimed
        ELSE R([decls |-> d.v, body |-> IF g THEN <<"grammar", b.v, 0>> ELSE b.v], 0)
=============================================================================
