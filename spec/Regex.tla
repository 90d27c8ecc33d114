------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* The pattern facet.  A regular expression is given by its structure; it  *)
(* matches a string if the whole string is in its language.                *)
(*   <<"eps">>  <<"ch", c>>  <<"cls", <<<<lo, hi>>, ...>>, neg>>  <<"dot">> *)
(*   <<"cat", <<r, ...>>>>  <<"alt", <<r, ...>>>>                           *)
(*   <<"rep", r, min, max>>     max = -1: unbounded                        *)
(***************************************************************************)
EXTENDS Text

ReNone == <<"nil">>
ReEps == <<"eps">>
InClass(c, rs) == \E i \in 1..Len(rs) : InRange(c, rs[i][1], rs[i][2])

RECURSIVE ReNull(_)
ReNull(r) ==
    CASE r[1] = "nil" -> FALSE
      [] r[1] = "eps" -> TRUE
      [] r[1] \in {"ch", "cls", "dot"} -> FALSE
      [] r[1] = "cat" -> \A i \in 1..Len(r[2]) : ReNull(r[2][i])
      [] r[1] = "alt" -> \E i \in 1..Len(r[2]) : ReNull(r[2][i])
      [] r[1] = "rep" -> r[3] = 0 \/ ReNull(r[2])

\* What may remain to be matched after a character: sets of sequences of expressions, of which there are
\* never many, where the derivative as a single expression could double in size with each character.
RECURSIVE ReAfter(_, _), ReAfterAll(_, _)
ReAfter(r, c) ==
    CASE r[1] \in {"nil", "eps"} -> {}
      [] r[1] = "ch" -> IF r[2] = c THEN {<<>>} ELSE {}
      [] r[1] = "cls" -> IF InClass(c, r[2]) # r[3] THEN {<<>>} ELSE {}
      [] r[1] = "dot" -> IF c \in {10, 13} THEN {} ELSE {<<>>}
      [] r[1] = "cat" -> ReAfterAll(r[2], c)
      [] r[1] = "alt" -> UNION {ReAfter(r[2][i], c) : i \in 1..Len(r[2])}
      [] r[1] = "rep" ->
           IF r[4] = 0 THEN {}
           ELSE LET rest == IF r[4] = 1 THEN <<>>
                            ELSE <<<<"rep", r[2], IF r[3] = 0 THEN 0 ELSE r[3] - 1, IF r[4] = -1 THEN -1 ELSE r[4] - 1>>>>
                IN  {p \o rest : p \in ReAfter(r[2], c)}
ReAfterAll(rs, c) ==
    IF rs = <<>> THEN {}
    ELSE {p \o Tail(rs) : p \in ReAfter(rs[1], c)} \cup (IF ReNull(rs[1]) THEN ReAfterAll(Tail(rs), c) ELSE {})

RECURSIVE ReRun(_, _, _)
ReRun(left, s, i) == IF left = {} THEN FALSE
                     ELSE IF i > Len(s) THEN \E rs \in left : \A j \in 1..Len(rs) : ReNull(rs[j])
                     ELSE ReRun(UNION {ReAfterAll(rs, s[i]) : rs \in left}, s, i + 1)
ReMatch(r, s) == ReRun({<<r>>}, s, 1)
=============================================================================
