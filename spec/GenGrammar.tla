------------------------------ MODULE GenGrammar ------------------------------
(***************************************************************************)
(* All schemas of a small size for the parts of the language that Compose  *)
(* is about: definitions and references, several definitions of a name,    *)
(* includes and overrides, grammars within grammars.  A schema is a        *)
(* sequence of files [path, body]; the first is the main one.  Bodies and  *)
(* patterns are as in Compose, but without places and with name classes of *)
(* Rng, and with the path of a file where that has the reference to it.    *)
(* Those that are wrong are enumerated like those that are not.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json
LOCAL INSTANCE SequencesExt

Family == IOEnv.FAMILY
Level == atoi(IOEnv.LEVEL)

Nm(n) == <<"name", "", n>>
El(n, p) == <<"element", Nm(n), p>>
EMPTY == <<"empty">>
Leaf(n) == El(n, EMPTY)
Ref(n) == <<"ref", n>>
Parent(n) == <<"parentref", n>>
Def(n, m, p) == <<"define", n, m, p>>
Gram(items) == <<"grammar", items>>
External(f) == <<"external", f>>
Bin(bs, P, Q) == {<<b, <<p, q>>>> : b \in bs, p \in P, q \in Q}
Ops == {"choice", "group", "interleave"}
Methods == {"=", "|=", "&="}
Main(items) == [path |-> "main", body |-> Gram(items)]
File(path, body) == [path |-> path, body |-> body]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))

------------------------------------------------------------------------------
(* "refs": what may refer to what, loops, undefined names, elements in       *)
(* attributes                                                                *)
RRefs == {Ref("a"), Ref("b"), Ref("c")}
RBody == RRefs \cup {EMPTY, Leaf("x")}
         \cup {<<u, p>> : u \in {"optional", "list", "mixed"}, p \in RRefs}
         \cup {El("x", p) : p \in RRefs \cup {<<"zeroOrMore", Ref("a")>>}}
         \cup {<<"attribute", Nm("y"), p>> : p \in RRefs}
         \cup {<<"data", "token", <<>>, p>> : p \in RRefs}
         \cup Bin({"choice", "group"}, {Ref("a"), Leaf("y")}, {Ref("b"), Ref("c"), EMPTY})
RMore == {Gram(<<Def("start", "=", p)>>) : p \in {Ref("a"), Parent("a"), Parent("b"), Parent("c"), El("x", Parent("a"))}}
         \cup {Gram(<<Def("a", "=", EMPTY), Def("start", "=", p)>>) : p \in {Ref("a"), Parent("a"), Parent("b")}}
RStart == {El("r", Ref("a")), Ref("a"), El("r", <<"group", <<Ref("b"), Ref("a")>> >>), El("r", <<"attribute", Nm("y"), Ref("a")>>)}
Refs ==
    LET B == IF Level = 1 THEN RBody ELSE RBody \cup RMore
        A == {<<Def("a", "=", p)>> : p \in B}
        AB == {<<Def("a", "=", p), Def("b", "=", q)>> : p, q \in B}
    IN  {<<Main(IF first THEN <<Def("start", "=", s)>> \o x ELSE x \o <<Def("start", "=", s)>>)>>
            : s \in RStart, x \in A \cup AB, first \in BOOLEAN}

------------------------------------------------------------------------------
(* "combine": several definitions of one name                                *)
CBody(k) == {Leaf(k), <<"optional", Leaf(k)>>} \cup (IF Level = 1 THEN {} ELSE Bin(Ops, {Leaf(k)}, {Leaf("z")}))
CItems(k) == {Def(n, m, p) : n \in {"a"}, m \in Methods, p \in CBody(k)}
CThree == LET one == CItems("k") two == CItems("l") three == CItems("m")
          IN  {<<d>> : d \in one} \cup {<<d, e>> : d \in one, e \in two}
              \cup {<<d, e, f>> : d \in one, e \in two, f \in three}
              \cup {<<Def("a", m[1], Leaf("k")), Def("a", m[2], q), Def("a", m[3], Leaf("m")), Def("a", m[4], Leaf("n"))>>
                      : m \in [1..4 -> Methods], q \in {Leaf("l"), <<"choice", <<Leaf("l"), Leaf("z")>> >>, <<"interleave", <<Leaf("l"), Leaf("z")>> >>}}
CUse == Def("start", "=", El("r", Ref("a")))
\* where the definitions are: next to each other, in divs, in a file that is included, or of start
CSplit(s, k) ==
    CASE k = "plain" -> <<Main(<<CUse>> \o s)>>
      [] k = "div" -> <<Main(<< <<"div", SubSeq(s, 1, 1)>> >> \o SubSeq(s, 2, Len(s) - 1) \o <<CUse, <<"div", << <<"div", SubSeq(s, Len(s), Len(s))>> >> >> >>)>>
      [] k = "include" -> <<Main(SubSeq(s, 1, Len(s) - 1) \o << <<"include", "i", <<>> >>, CUse>>), File("i", Gram(SubSeq(s, Len(s), Len(s))))>>
      [] k = "included" -> <<Main(<< <<"include", "i", <<>> >>, CUse>> \o SubSeq(s, 2, Len(s))), File("i", Gram(SubSeq(s, 1, 1)))>>
      [] k = "start" -> <<Main([i \in 1..Len(s) |-> [s[i] EXCEPT ![2] = "start"]])>>
Combine == {CSplit(s, k) : s \in {x \in CThree : Len(x) > 1}, k \in {"plain", "div", "include", "included", "start"}}

------------------------------------------------------------------------------
(* "include": a grammar that includes i, which may include n                 *)
Names == {"a", "b", "start"}
IOver == {<<>>} \cup {<<Def(n, m, Leaf("o"))>> : n \in Names \cup {"c"}, m \in {"=", "|="}}
         \cup {<<Def("a", m, Leaf("o")), Def(n, "=", Leaf("q"))>> : n \in {"b", "start"}, m \in {"=", "&="}}
         \cup {<< <<"div", <<Def("a", "=", Leaf("o"))>> >> >>, <<Def("a", "=", El("o", Ref("b")))>>,
               <<Def("a", "|=", Leaf("o")), Def("a", "|=", Leaf("q"))>>, <<Def("a", "=", Leaf("o")), Def("a", "=", Leaf("q"))>>}
INested == {<<>>, << <<"include", "n", <<>> >> >>}
           \cup {<< <<"include", "n", <<Def("a", m, Leaf("p"))>> >> >> : m \in {"=", "|="}}
IOwn == {<<Def("a", "=", El("i", <<"optional", Ref("b")>>))>>, <<Def("a", "|=", Leaf("i")), Def("a", "|=", Leaf("j"))>>,
         << <<"div", <<Def("a", "&=", Leaf("i"))>> >>, Def("a", "&=", Leaf("j"))>>, <<>>}
IInner == {x \o y \o z : x \in INested, y \in IOwn, z \in {<<>>, <<Def("b", "=", Leaf("b"))>>, <<Def("start", "=", El("s", Ref("a"))), Def("b", "=", Leaf("b"))>>}}
INest == {<<Def("a", "|=", Leaf("n"))>>, <<Def("a", "=", Leaf("n")), Def("b", "|=", Leaf("m"))>>, <<Def("b", "=", El("m", Ref("a")))>>}
IAfter == {<<>>, <<Def("start", "=", El("r", <<"group", <<Ref("a"), Ref("b")>> >>))>>,
           <<Def("start", "=", El("r", Ref("a"))), Def("a", "|=", Leaf("w"))>>, <<Def("start", "|=", El("r", Ref("a"))), Def("b", "=", Leaf("v"))>>,
           <<Def("start", "=", El("r", <<"choice", <<Ref("a"), Ref("b"), Ref("c")>> >>)), Def("c", "=", Leaf("c"))>>}
Include ==
    {<<Main(IF first THEN <<i>> \o z ELSE z \o <<i>>), File("i", Gram(x))>> \o (IF \E k \in 1..Len(x) : x[k][1] = "include" THEN <<File("n", Gram(n))>> ELSE <<>>)
       : i \in {<<"include", "i", o>> : o \in IOver}, z \in IAfter, x \in IInner, n \in INest, first \in BOOLEAN}

------------------------------------------------------------------------------
(* "scopes": a grammar in a definition, inline or in another file, with      *)
(* another one in it                                                         *)
SRef == {Ref("a"), Parent("a"), El("x", Ref("a")), El("x", Parent("a")), Parent("b"), Ref("b")}
SOwn == {<<>>, <<Def("a", "=", Leaf("i"))>>, <<Def("a", "=", El("i", <<"optional", Parent("a")>>))>>, <<Def("a", "=", Ref("b")), Def("b", "=", Leaf("j"))>>}
SDeep == {Gram(<<Def("start", "=", p)>> \o o) : p \in SRef, o \in {<<>>, <<Def("a", "=", Leaf("k"))>>}}
SOuter == {<<>>, <<Def("a", "=", Leaf("o"))>>, <<Def("a", "=", Leaf("o")), Def("b", "=", El("u", <<"optional", Ref("a")>>))>>}
SInner == {Gram(<<Def("start", "=", p)>> \o o) : p \in SRef, o \in SOwn}
          \cup {Gram(o \o <<Def("start", "=", p)>>) : p \in SDeep, o \in SOwn}
          \cup {Gram(<<Def("start", "=", <<"choice", <<p, q>> >>), Def("a", "=", Leaf("i"))>>) : p \in SRef, q \in SDeep}
\* in the outer grammar, the inner one is the content of start, of a definition, or in a sequence with a reference
SPlace(x, k) ==
    CASE k = "start" -> <<Def("start", "=", El("r", x))>>
      [] k = "top" -> <<Def("start", "=", <<"choice", <<El("r", EMPTY), x>> >>)>>
      [] k = "after" -> <<Def("start", "=", El("r", <<"group", <<Ref("a"), x>> >>))>>
      [] k = "before" -> <<Def("start", "=", El("r", <<"group", <<x, Ref("a")>> >>))>>
      [] k = "defined" -> <<Def("g", "=", x), Def("start", "=", El("r", Ref("g")))>>
Places == {"start", "top", "after", "before", "defined"}
Scopes == {<<Main(IF first THEN o \o SPlace(x, k) ELSE SPlace(x, k) \o o)>> : o \in SOuter, x \in SInner, k \in Places, first \in BOOLEAN}
          \cup {<<Main(IF first THEN o \o SPlace(External("e"), k) ELSE SPlace(External("e"), k) \o o), File("e", x)>>
                  : o \in SOuter, x \in SInner, k \in Places, first \in BOOLEAN}
          \cup {<<Main(o \o SPlace(External("e"), k)), File("e", x)>> : o \in SOuter, k \in Places, x \in SRef}

------------------------------------------------------------------------------
(* "files": files that refer to each other by include and external, to       *)
(* themselves, and to what is not there                                      *)
Paths == {"main", "d/e", "d/f"}
FItems(to) == {<<"include", f, <<>> >> : f \in to} \cup {Def("start", "|=", External(f)) : f \in to}
              \cup {Def("start", "|=", Gram(<< <<"include", f, <<>> >> >>)) : f \in to}
FBody(to) == {External(f) : f \in to} \cup {Leaf("e")} \cup {Gram(<<i, Def("start", "|=", Leaf("g"))>>) : i \in FItems(to)} \cup {Gram(<<Def("start", "|=", Leaf("g"))>>)}
FFirst(to) == {Gram(<<i, Def("start", "|=", Leaf("m"))>>) : i \in FItems(to)} \cup {Gram(<<i, j>>) : i, j \in FItems(to \cap {"d/e", "d/f"})}
Files == LET T == {"main", "d/e", "d/f"} \cup (IF Level = 1 THEN {} ELSE {"d/none"})
         IN  {<<File("main", x), File("d/e", y), File("d/f", z)>> : x \in FFirst(T), y \in FBody(T), z \in FBody(T)}

------------------------------------------------------------------------------
All == CASE Family = "refs" -> Refs [] Family = "combine" -> Combine [] Family = "include" -> Include
         [] Family = "scopes" -> Scopes [] Family = "files" -> Files
ASSUME ndJsonSerialize(IOEnv.SCHEMAS, LET s == SetToSeq(All) IN [i \in 1..Len(s) |-> [f |-> s[i]]])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
