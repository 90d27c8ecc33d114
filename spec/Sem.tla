--------------------------------- MODULE Sem ----------------------------------
(***************************************************************************)
(* What it means that a document matches a pattern, as the RELAX NG        *)
(* specification (section 6) says it: by splitting attributes and children *)
(* in all ways there are.  The machine of RngDoc and Rng, which reads a    *)
(* document from front to back, has to agree with this (TraceSmall).       *)
(*                                                                         *)
(* Trees: <<"e", ns, local, <<<<ns, local, chars>>, ...>>, kids>> and      *)
(* <<"t", chars>>, no two texts next to each other.                        *)
(***************************************************************************)
EXTENDS Rng

Pick(ks, I) == LET RECURSIVE P(_)
                   P(i) == IF i > Len(ks) THEN <<>> ELSE (IF i \in I THEN <<ks[i]>> ELSE <<>>) \o P(i + 1)
               IN P(1)
IsText(k) == k[1] = "t"

\* as: a set of attributes, ks: a sequence of elements and texts
RECURSIVE Mt(_, _, _, _), MtAll(_, _, _, _, _), ElemOk(_, _, _), TextOk(_, _, _)
Mt(p, as, ks, D) ==
    CASE p[1] = "empty" -> as = {} /\ ks = <<>>
      [] p[1] = "notAllowed" -> FALSE
      [] p[1] = "text" -> as = {} /\ \A i \in 1..Len(ks) : IsText(ks[i])
      [] p[1] = "choice" -> \E i \in 1..Len(p[2]) : Mt(p[2][i], as, ks, D)
      [] p[1] \in {"group", "interleave"} -> MtAll(p[1], p[2], as, ks, D)
      [] p[1] = "optional" -> (as = {} /\ ks = <<>>) \/ Mt(p[2], as, ks, D)
      [] p[1] = "zeroOrMore" -> (as = {} /\ ks = <<>>) \/ Mt(<<"oneOrMore", p[2]>>, as, ks, D)
      [] p[1] = "oneOrMore" ->
           \/ Mt(p[2], as, ks, D)
           \/ \E A \in SUBSET as, i \in 0..Len(ks) :
                 /\ A # {} \/ i > 0
                 /\ A # as \/ i < Len(ks)
                 /\ Mt(p[2], A, SubSeq(ks, 1, i), D)
                 /\ Mt(p, as \ A, SubSeq(ks, i + 1, Len(ks)), D)
      [] p[1] = "mixed" -> Mt(p[2], as, Pick(ks, {i \in 1..Len(ks) : ~IsText(ks[i])}), D)
                           \/ MtAll("interleave", <<p[2], TEXT>>, as, ks, D)
      [] p[1] = "element" -> as = {} /\ Len(ks) = 1 /\ ~IsText(ks[1]) /\ NcIn(p[2], ks[1][2], ks[1][3]) /\ ElemOk(p[3], ks[1], D)
      [] p[1] = "attribute" ->
           ks = <<>> /\ Cardinality(as) = 1
           /\ \A a \in as : NcIn(p[2], a[1], a[2]) /\ TextOk(p[3], a[3], D)
      [] p[1] = "value" -> as = {} /\ Len(ks) = 1 /\ IsText(ks[1]) /\ ValEq(p[2], p[3], ks[1][2])
      [] p[1] = "data" ->
           /\ as = {} /\ Len(ks) = 1 /\ IsText(ks[1]) /\ DtValid(p[2], p[3], ks[1][2])
           /\ p[4] = <<"none">> \/ ~Mt(p[4], {}, ks, D)
      [] p[1] = "list" ->
           as = {} /\ Len(ks) = 1 /\ IsText(ks[1])
           /\ LET ws == SplitWs(ks[1][2]) IN Mt(p[2], {}, [i \in 1..Len(ws) |-> <<"t", ws[i]>>], D)
      [] p[1] = "ref" -> Mt(D[p[2]], as, ks, D)
MtAll(op, ps, as, ks, D) ==
    IF Len(ps) = 1 THEN Mt(ps[1], as, ks, D)
    ELSE \E A \in SUBSET as :
           IF op = "group"
           THEN \E i \in 0..Len(ks) : /\ Mt(ps[1], A, SubSeq(ks, 1, i), D)
                                      /\ MtAll(op, Tail(ps), as \ A, SubSeq(ks, i + 1, Len(ks)), D)
           ELSE \E I \in SUBSET (1..Len(ks)) : /\ Mt(ps[1], A, Pick(ks, I), D)
                                               /\ MtAll(op, Tail(ps), as \ A, Pick(ks, (1..Len(ks)) \ I), D)
\* one piece of text, all that there is
TextOk(p, s, D) == (AllWs(s) /\ Mt(p, {}, <<>>, D)) \/ Mt(p, {}, << <<"t", s>> >>, D)
ElemOk(p, e, D) ==
    LET as == {e[4][i] : i \in 1..Len(e[4])}
        kids == Pick(e[5], {i \in 1..Len(e[5]) : ~(IsText(e[5][i]) /\ AllWs(e[5][i][2]))})
    IN  IF e[5] = <<>> THEN Mt(p, as, <<>>, D) \/ Mt(p, as, << <<"t", <<>> >> >>, D)
        ELSE IF Len(e[5]) = 1 /\ IsText(e[5][1]) /\ AllWs(e[5][1][2])
        THEN Mt(p, as, <<>>, D) \/ Mt(p, as, e[5], D)
        ELSE Mt(p, as, kids, D)
Valid(tree, D) == Mt(D.start, {}, <<tree>>, D)

------------------------------------------------------------------------------
(* The tokens of a tree.  pre: pairs of a namespace and the prefix for it,   *)
(* which are declared on the root.                                           *)
PrefixOf(ns, pre) == IF ns = "" THEN "" ELSE pre[CHOOSE i \in 1..Len(pre) : pre[i][1] = ns][2]
RECURSIVE Toks(_, _, _), ToksAll(_, _)
Toks(t, pre, root) ==
    IF IsText(t) THEN << <<"text", << <<"s", t[2]>> >> >> >>
    ELSE << <<"open", PrefixOf(t[2], pre), t[3]>> >>
         \o [i \in 1..(IF root THEN Len(pre) ELSE 0) |-> <<"ns", pre[i][2], pre[i][1]>>]
         \o [i \in 1..Len(t[4]) |-> <<"attr", PrefixOf(t[4][i][1], pre), t[4][i][2],
                                      IF t[4][i][3] = <<>> THEN <<>> ELSE << <<"s", t[4][i][3]>> >> >>]
         \o (IF t[5] = <<>> /\ ~root THEN << <<"empty">> >>
             ELSE << <<"sgt">> >> \o ToksAll(t[5], pre) \o << <<"close", PrefixOf(t[2], pre), t[3]>> >>)
ToksAll(ks, pre) == IF ks = <<>> THEN <<>> ELSE Toks(ks[1], pre, FALSE) \o ToksAll(Tail(ks), pre)
=============================================================================
