------------------------------- MODULE GenSmall -------------------------------
(***************************************************************************)
(* All schemas and all documents of a small size, for several parts of the *)
(* language.  The patterns of a family are the contents of one element r,  *)
(* or the whole schema; each is tried on all the documents of the family.  *)
(***************************************************************************)
EXTENDS Sem, TLC, IOUtils, Json
LOCAL INSTANCE SequencesExt

Family == IOEnv.FAMILY
Level == atoi(IOEnv.LEVEL)

Nm(n) == <<"name", "", n>>
El(n, p) == <<"element", Nm(n), p>>
Att(n, p) == <<"attribute", Nm(n), p>>
Val(s) == <<"value", "token", s>>
DataT(e) == <<"data", "token", <<>>, e>>
Un(us, P) == {<<u, p>> : u \in us, p \in P}
Bin(bs, P, Q) == {<<b, <<p, q>>>> : b \in bs, p \in P, q \in Q}
Pos == {"optional", "zeroOrMore", "oneOrMore"}
Ops == {"choice", "group", "interleave"}
c1 == <<49>>  c2 == <<50>>

------------------------------------------------------------------------------
(* "content": sequence, choice, interleave and repetition of elements, text  *)
(* and an attribute                                                          *)
CLeaf == {EMPTY, TEXT, El("a", EMPTY), El("b", TEXT), Att("x", TEXT), NA}
CSmall == {El("a", EMPTY), El("b", TEXT), TEXT}
CUn(P) == Un(Pos \cup {"mixed"}, P)
C1 == CLeaf \cup CUn(CLeaf) \cup Bin(Ops, CLeaf, CLeaf)
C2 == IF ~(Family = "content" /\ Level = 2) THEN {} ELSE CUn(C1) \cup Bin(Ops, C1, CLeaf) \cup Bin(Ops, CLeaf, C1)
C3 == IF ~(Family = "content" /\ Level > 2) THEN {} ELSE LET S == CSmall \cup Un(Pos, CSmall) \cup Bin(Ops, CSmall, CSmall) IN Bin(Ops, S, S) \cup Un(Pos, Bin(Ops, S, CSmall))
CItem == {<<"e", "", "a", <<>>, <<>> >>, <<"e", "", "b", <<>>, <<>> >>, <<"e", "", "b", <<>>, << <<"t", c1>> >> >>,
          <<"t", c1>>, <<"t", <<32>> >>}
\* no two texts in a row
Kids(items, n) == {s \in UNION {[1..k -> items] : k \in 0..n} :
                     \A i \in 1..(Len(s) - 1) : ~(IsText(s[i]) /\ IsText(s[i + 1]))}
CDocs == IF ~(Family = "content") THEN {} ELSE {<<"e", "", "r", as, ks>> : as \in {<<>>, << <<"", "x", c1>> >>}, ks \in Kids(CItem, 3)}

------------------------------------------------------------------------------
(* "attributes" *)
ALeaf == {Att("x", TEXT), Att("x", Val(c1)), Att("y", TEXT), Att("y", Val(<<>>)), El("a", EMPTY), EMPTY,
          <<"oneOrMore", <<"attribute", <<"anyName", <<"none">> >>, TEXT>> >>,
          <<"zeroOrMore", <<"attribute", <<"anyName", Nm("x")>>, Val(c1)>> >>}
A1 == ALeaf \cup Un(Pos, ALeaf) \cup Bin(Ops, ALeaf, ALeaf)
A2 == IF ~(Family = "attributes" /\ Level > 1) THEN {} ELSE Un(Pos, A1) \cup Bin(Ops, A1, ALeaf) \cup Bin(Ops, ALeaf, A1)
AAtts == {<<"", "x", c1>>, <<"", "x", c2>>, <<"", "y", <<>> >>, <<"", "y", c1>>, <<"", "z", c1>>}
ASeqs == IF ~(Family = "attributes") THEN {} ELSE {s \in UNION {[1..k -> AAtts] : k \in 0..3} : \A i, j \in 1..Len(s) : i # j => s[i][2] # s[j][2]}
ADocs == {<<"e", "", "r", as, ks>> : as \in ASeqs, ks \in Kids({<<"e", "", "a", <<>>, <<>> >>}, 1)}

------------------------------------------------------------------------------
(* "repeats": repetitions of what is itself repeated or may be missing, over *)
(* few names                                                                 *)
PLeaf == {El("a", EMPTY), El("b", EMPTY)}
PQ == PLeaf \cup Un(Pos, PLeaf)
P1 == Bin(Ops, PQ, PQ)
P2 == Un(Pos, P1)
P3 == IF ~(Family = "repeats" /\ Level > 1) THEN {} ELSE Bin(Ops, P2, PQ) \cup Bin(Ops, PQ, P2) \cup Un(Pos, Bin(Ops, P1, PQ))
P4 == IF ~(Family = "repeats" /\ Level > 2) THEN {} ELSE Un(Pos, P3)
PItem == {<<"e", "", "a", <<>>, <<>> >>, <<"e", "", "b", <<>>, <<>> >>}
PDocs == IF ~(Family = "repeats") THEN {} ELSE {<<"e", "", "r", <<>>, ks>> : ks \in UNION {[1..k -> PItem] : k \in 0..6}}

(* "attrepeats": the same of attributes of any name of a namespace           *)
QLeaf == {<<"attribute", <<"nsName", "urn:u", <<"none">> >>, TEXT>>, <<"attribute", <<"nsName", "urn:v", <<"none">> >>, TEXT>>,
          <<"attribute", <<"anyName", <<"nsName", "urn:u", <<"none">> >> >>, TEXT>>}
QNamed == {Att("x", TEXT), Att("x", Val(c1)), El("a", EMPTY), EMPTY}
QQ == Un({"zeroOrMore", "oneOrMore"}, QLeaf)
Q1 == IF ~(Family = "attrepeats") THEN {} ELSE Un({"zeroOrMore", "oneOrMore"}, Bin(Ops, QLeaf, QLeaf)) \cup Bin(Ops, QQ, QQ)
Q2 == IF ~(Family = "attrepeats" /\ Level > 1) THEN {} ELSE Bin(Ops, Q1, QNamed \cup QQ) \cup Un(Pos, Q1) \cup Un({"zeroOrMore", "oneOrMore"}, Bin(Ops, QLeaf \cup QQ, Bin(Ops, QLeaf, QLeaf)))
QAtts == {<<"urn:u", "a", c1>>, <<"urn:u", "b", c2>>, <<"urn:v", "a", c1>>, <<"urn:v", "c", c1>>, <<"", "x", c1>>, <<"", "y", c2>>}
QSeqs == IF ~(Family = "attrepeats") THEN {} ELSE {s \in UNION {[1..k -> QAtts] : k \in 0..3} : \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}
         \cup {<<a, b, c, d>> : a, c \in {x \in QAtts : x[1] = "urn:u"}, b, d \in {x \in QAtts : x[1] # "urn:u"}}
QDocs == {<<"e", "", "r", as, <<>> >> : as \in {s \in QSeqs : \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}}
         \cup {<<"e", "", "r", as, << <<"e", "", "a", <<>>, <<>> >> >> >> : as \in {s \in QSeqs : Len(s) <= 1}}

------------------------------------------------------------------------------
(* "text": values, data and lists, as the content of an element and of an    *)
(* attribute                                                                 *)
TLeaf == {Val(c1), Val(c2), DataT(<<"none">>), DataT(Val(c1)), <<"value", "string", c1>>, <<"data", "string", <<>>, <<"none">> >>, Val(<<>>)}
LLeaf == {Val(c1), Val(c2), DataT(Val(c1)), EMPTY}
L1 == LLeaf \cup Un(Pos, LLeaf) \cup Bin({"choice", "group"}, LLeaf, LLeaf)
L2 == IF ~(Family \in {"text", "values"} /\ Level > 1) THEN {} ELSE Un(Pos, L1) \cup Bin({"choice", "group"}, L1, L1)
TTop(n) == TLeaf \cup {EMPTY, TEXT} \cup Un({"list"}, IF n = 1 THEN L1 ELSE L2)
TMore == LET S == TLeaf \cup {EMPTY, TEXT} \cup Un({"list"}, LLeaf) IN Un({"optional"}, S) \cup Bin({"choice"}, S, S)
TStr == IF ~(Family \in {"text", "values"}) THEN {} ELSE UNION {[1..k -> {49, 50, 32}] : k \in 0..(IF Level = 1 THEN 4 ELSE 5)}
TDocs == {<<"e", "", "r", <<>>, IF s = <<>> THEN <<>> ELSE << <<"t", s>> >> >> : s \in TStr}
VDocs == {<<"e", "", "r", << <<"", "x", s>> >>, <<>> >> : s \in TStr} \cup {<<"e", "", "r", <<>>, <<>> >>}

------------------------------------------------------------------------------
(* "names": name classes *)
Uris == {"", "urn:u"}
NLeaf == {<<"name", u, l>> : u \in Uris, l \in {"a", "b"}}
NNone == {<<"none">>}
NsWith(E) == {<<"nsName", u, e>> : u \in {"urn:u"}, e \in E}
AnyWith(E) == {<<"anyName", e>> : e \in E}
NAlt(P, Q) == {<<"alt", p, q>> : p \in P, q \in Q}
Nc1 == NLeaf \cup NsWith(NNone) \cup AnyWith(NNone)
Nc2 == NAlt(Nc1, Nc1) \cup NsWith(NLeaf) \cup AnyWith(NLeaf \cup NsWith(NNone \cup NLeaf))
Nc3 == IF ~(Family \in {"names", "attnames"}) THEN {} ELSE NAlt(Nc2, Nc1) \cup NAlt(Nc1, Nc2) \cup NsWith(NAlt(NLeaf, NLeaf)) \cup AnyWith(NAlt(NLeaf \cup NsWith(NNone \cup NLeaf), NLeaf \cup NsWith(NNone)))
NN == Nc1 \cup Nc2 \cup (IF Level = 1 THEN {} ELSE Nc3)
NDocs == {<<"e", u, l, <<>>, <<>> >> : u \in {"", "urn:u", "urn:v"}, l \in {"a", "b", "c"}}
MDocs == {<<"e", "", "r", << <<u, l, c1>> >>, <<>> >> : u \in {"", "urn:u", "urn:v"}, l \in {"a", "b", "c"}}
         \cup {<<"e", "", "r", << <<u, "a", c1>>, <<v, "b", c1>> >>, <<>> >> : u, v \in {"", "urn:u", "urn:v"}}

------------------------------------------------------------------------------
(* "refs": grammars of three definitions, none of which refers to itself     *)
(* other than through an element                                             *)
Ra == <<"ref", "a">>  Rb == <<"ref", "b">>
RX(P) == {El("x", p) : p \in P}
RLeaf == {Ra, Rb, EMPTY, TEXT, El("x", EMPTY)}
RIn == {Ra, Rb, <<"optional", Ra>>, <<"oneOrMore", Rb>>, <<"choice", <<Rb, EMPTY>> >>, <<"choice", <<TEXT, Ra>> >>,
        <<"group", <<Att("y", TEXT), <<"zeroOrMore", Ra>> >> >>, <<"interleave", <<Ra, <<"optional", Rb>> >> >>}
R1 == RLeaf \cup RX(RIn) \cup {Att("y", TEXT)} \cup Un(Pos, {Ra, Rb, El("x", <<"optional", Ra>>)})
      \cup Bin({"choice", "group", "interleave"}, {Ra, El("x", Ra), Att("y", TEXT)}, {Rb, EMPTY, El("x", <<"zeroOrMore", Rb>>)})
R2 == IF ~(Family = "refs" /\ Level > 1) THEN {} ELSE R1 \cup Bin(Ops, RX(RIn), {Ra, Rb} \cup RX({EMPTY, <<"optional", Ra>>})) \cup Un(Pos \cup {"mixed"}, Bin(Ops, {Ra, Rb}, {Rb, El("x", <<"optional", Rb>>)}))
RStarts == {El("x", Ra), El("x", <<"group", <<Ra, Rb>> >>), Ra, <<"choice", <<Ra, Rb>> >>,
            El("x", <<"interleave", <<Rb, <<"zeroOrMore", Ra>> >> >>)}
RECURSIVE Flat(_)
Flat(p) == CASE p[1] = "ref" -> {p[2]}
             [] p[1] \in Ops -> UNION {Flat(p[2][i]) : i \in 1..Len(p[2])}
             [] p[1] \in Pos \cup {"mixed"} -> Flat(p[2])
             [] OTHER -> {}
Founded(p, q) == /\ "a" \notin Flat(p) /\ "b" \notin Flat(q)
                 /\ ~("b" \in Flat(p) /\ "a" \in Flat(q))
\* a start that matches one element and nothing else
RECURSIVE OneElement(_, _)
OneElement(p, g) == CASE p[1] = "element" -> TRUE
                      [] p[1] = "ref" -> OneElement(g[p[2]], g)
                      [] p[1] = "choice" -> \A i \in 1..Len(p[2]) : OneElement(p[2][i], g)
                      [] OTHER -> FALSE
RGrammars == IF ~(Family = "refs") THEN {} ELSE {[start |-> s, a |-> p, b |-> q] : s \in RStarts,
              p \in IF Level = 1 THEN R1 ELSE R2, q \in IF Level = 1 THEN R1 ELSE R2}
Rx(as, ks) == <<"e", "", "x", as, ks>>
RECURSIVE RForest(_)
\* sequences of trees with so many nodes in all
RForest(n) == IF n = 0 THEN {<<>>}
              ELSE UNION {{<<Rx(<<>>, f)>> \o g : f \in RForest(k), g \in RForest(n - 1 - k)} : k \in 0..(n - 1)}
RAtt == <<"", "y", c1>>
RDocs == IF ~(Family = "refs") THEN {} ELSE LET F == {Rx(<<>>, f) : f \in UNION {RForest(n) : n \in 0..4}}
             G == {Rx(<<RAtt>>, f) : f \in UNION {RForest(n) : n \in 0..3}}
             H == {Rx(<<>>, <<Rx(<<RAtt>>, f)>> \o g) : f, g \in UNION {RForest(n) : n \in 0..2}}
             T == {Rx(<<>>, << <<"t", c1>> >> \o f) : f \in UNION {RForest(n) : n \in 0..2}}
                  \cup {Rx(<<>>, f \o <<Rx(<<>>, << <<"t", c1>> >>)>>) : f \in UNION {RForest(n) : n \in 0..2}}
         IN  F \cup G \cup H \cup T

------------------------------------------------------------------------------
Contents ==
    CASE Family = "content" -> IF Level = 1 THEN C1 ELSE IF Level = 2 THEN C2 ELSE C3
      [] Family = "attributes" -> IF Level = 1 THEN A1 ELSE A2
      [] Family = "repeats" -> IF Level = 1 THEN P1 \cup P2 ELSE IF Level = 2 THEN P3 ELSE P4
      [] Family = "attrepeats" -> IF Level = 1 THEN Q1 ELSE Q2
      [] Family = "text" -> IF Level = 1 THEN TTop(1) \cup TMore ELSE TTop(2)
      [] Family = "values" -> LET T == IF Level = 1 THEN TTop(1) \cup TMore ELSE TTop(2) IN {Att("x", p) : p \in T}
      [] Family = "names" -> NN
      [] Family = "attnames" -> {<<"attribute", n, TEXT>> : n \in NN}
Starts == IF Family = "refs" THEN {g \in RGrammars : Founded(g.a, g.b) /\ OneElement(g.start, g)} ELSE IF Family = "names" THEN {<<"element", n, EMPTY>> : n \in Contents} ELSE {El("r", p) : p \in Contents}
Docs == CASE Family = "content" -> CDocs [] Family = "attributes" -> ADocs [] Family = "repeats" -> PDocs [] Family = "attrepeats" -> QDocs
          [] Family = "text" -> TDocs
          [] Family = "values" -> VDocs [] Family = "names" -> NDocs [] Family = "attnames" -> MDocs
          [] Family = "refs" -> RDocs
Declared == IF Family \in {"names", "attnames", "attrepeats"} THEN << <<"urn:u", "p">>, <<"urn:v", "q">> >> ELSE <<>>

ASSUME ndJsonSerialize(IOEnv.PATTERNS, SetToSeq(Starts))
ASSUME ndJsonSerialize(IOEnv.TREES, LET ds == SetToSeq(Docs) IN [i \in 1..Len(ds) |-> [tree |-> ds[i], toks |-> Toks(ds[i], Declared, TRUE)]])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
