------------------------------ MODULE TraceSmall ------------------------------
(***************************************************************************)
(* Each case is a schema, [id, defs, obs], where obs says for each of the  *)
(* documents (IOEnv.TREES) at which token it was rejected: 0 not at all,   *)
(* -1 with another outcome than acceptance or a rejection.                 *)
(* Compares for all of them what the machine of RngDoc does with what was  *)
(* observed, and checks the machine itself: that it agrees with Sem, and   *)
(* that whatever it has not rejected yet can be completed.                 *)
(***************************************************************************)
EXTENDS Sem, RngDoc, TLC, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)
Trees == ndJsonDeserialize(IOEnv.TREES)
Deep == IOEnv.DEEP = "1"

------------------------------------------------------------------------------
(* Tokens which complete what has been read so far, made from what remains.  *)
(* Names and strings that fit, if any are known.                             *)
Strings == {<<>>, <<49>>, <<50>>, <<49, 32, 50>>, <<49, 32, 49>>, <<50, 32, 50>>}
SomeName(nc) == CHOOSE n \in {"", "urn:u", "urn:v"} \X {"a", "b", "c", "r", "x", "y", "z"} : NcIn(nc, n[1], n[2])
TokPrefix(ns) == IF ns = "" THEN "" ELSE IF ns = "urn:u" THEN "p" ELSE "q"
RECURSIVE Can1(_, _)
\* can it be completed by what Fill makes?
Can1(p, D) ==
    CASE p[1] = "notAllowed" -> FALSE
      [] p[1] = "or" -> \E x \in p[2] : Can1(x, D)
      [] p[1] \in {"group", "interleave", "after"} -> Can1(p[2], D) /\ Can1(p[3], D)
      [] p[1] = "oneOrMore" -> Can1(p[2], D)
      [] p[1] = "element" -> Can1(Core(p[3], D), D)
      [] p[1] \in {"attribute"} -> \E s \in Strings : ValueOk(p[3], s)
      [] p[1] \in {"value", "data", "list"} -> \E s \in Strings : TextD(p, s) # NA
      [] OTHER -> TRUE
\* attributes and content of a core pattern
RECURSIVE Fill(_, _)
Fill(p, D) ==
    CASE p[1] \in {"empty", "text", "notAllowed"} -> [a |-> <<>>, k |-> <<>>]
      [] p[1] = "or" -> Fill(CHOOSE x \in p[2] : Can1(x, D), D)
      [] p[1] \in {"group", "interleave"} ->
           LET x == Fill(p[2], D)  y == Fill(p[3], D) IN [a |-> x.a \o y.a, k |-> x.k \o y.k]
      [] p[1] = "oneOrMore" -> Fill(p[2], D)
      [] p[1] = "attribute" ->
           LET n == SomeName(p[2])
               s == CHOOSE s \in Strings : ValueOk(p[3], s)
           IN  [a |-> << <<"attr", TokPrefix(n[1]), n[2], << <<"s", s>> >> >> >>, k |-> <<>>]
      [] p[1] = "element" ->
           LET n == SomeName(p[2])  x == Fill(Core(p[3], D), D)
           IN  [a |-> <<>>, k |-> << <<"open", TokPrefix(n[1]), n[2]>> >> \o x.a \o << <<"sgt">> >> \o x.k
                                  \o << <<"close", TokPrefix(n[1]), n[2]>> >>]
      [] p[1] \in {"value", "data", "list"} ->
           LET s == CHOOSE s \in Strings : TextD(p, s) # NA IN [a |-> <<>>, k |-> IF s = <<>> THEN <<>> ELSE << <<"text", << <<"s", s>> >> >> >>]
RECURSIVE Finish(_, _, _)
Finish(p, stack, D) ==
    IF stack = <<>> THEN <<>>
    ELSE LET x == CHOOSE x \in Alts(p) : Can1(x, D)
             top == stack[Len(stack)]
         IN  Fill(x[2], D).k \o << <<"close", top.prefix, top.local>> >> \o Finish(x[3], SubSeq(stack, 1, Len(stack) - 1), D)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(st, toks, l, D) ==
    IF l > Len(toks) THEN Step(st, <<"eof">>, l, D)
    ELSE LET s == Step(st, toks[l], l, D) IN IF Rejected(s) THEN s ELSE RunFrom(s, toks, l + 1, D)
\* two attributes of the same name, or content beside data, are not what the pattern asked for
Odd(toks) == \/ \E i, j \in 1..Len(toks) : i < j /\ toks[i][1] = "attr" /\ toks[j][1] = "attr"
                    /\ toks[i][2] = toks[j][2] /\ toks[i][3] = toks[j][3] /\ \A k \in i..j : toks[k][1] = "attr"
Completable(st, D) ==
    st.phase # "content" \/ st.tag # NoTag \/ st.run.on
    \/ LET p == IF st.fresh THEN st.pat ELSE st.pat
           ts == Finish(p, st.stack, D)
       IN  \/ ~Can1(p, D)
           \/ Odd(ts)
           \/ ~Rejected(RunFrom(st, ts, 1, D))

------------------------------------------------------------------------------
\* every state on the way through a document: where it is rejected, or {} with the last state
RECURSIVE Go(_, _, _, _)
Go(st, toks, l, D) ==
    IF Deep /\ ~Completable(st, D) THEN [bad |-> l, at |-> {}]
    ELSE IF l > Len(toks) + 1 THEN [bad |-> 0, at |-> {}]
    ELSE LET s == Step(st, IF l > Len(toks) THEN <<"eof">> ELSE toks[l], l, D)
         IN  IF Rejected(s) THEN [bad |-> 0, at |-> {e.at : e \in s.err}] ELSE Go(s, toks, l + 1, D)

VARIABLES c, done
Init == c \in 1..Len(Cases) /\ done = FALSE
Tell(j, what, at) == PrintT(<<"@@MISMATCH", Cases[c].id, j, what, at>>)
Check(j) ==
    LET D == Cases[c].defs
        g == Go(InitDoc(D.start, D), Trees[j].toks, 1, D)
        v == Valid(Trees[j].tree, D)
        o == Cases[c].obs[j]
    IN  IF g.bad > 0 THEN Tell(j, "SPEC: what is not rejected cannot be completed", g.bad)
        ELSE IF v # (g.at = {}) THEN Tell(j, "SPEC: the machine and the definition disagree", g.at)
        ELSE IF (o = 0) # (g.at = {}) THEN Tell(j, IF o = 0 THEN "accepted, should be rejected" ELSE "rejected, should be accepted", g.at)
        ELSE IF o # 0 /\ o \notin g.at THEN Tell(j, "rejected at another place", g.at)
        ELSE TRUE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED c
        /\ (\A j \in 1..Len(Trees) : Check(j)) = TRUE
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
