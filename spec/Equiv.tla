------------------------------- MODULE Equiv ---------------------------------
(***************************************************************************)
(* When do two patterns (with definitions) accept the same documents?      *)
(* Step by step: their derivatives by every event must both be impossible  *)
(* or both be possible.                                                    *)
(***************************************************************************)
EXTENDS Rng

(* Can anything match p at all?  G: the definitions for which that is known.
   Values and data are taken to match something.                             *)
RECURSIVE Can(_, _)
Can(p, G) ==
    CASE p[1] = "notAllowed" -> FALSE
      [] p[1] = "or" -> \E x \in p[2] : Can(x, G)
      [] p[1] = "choice" -> \E i \in 1..Len(p[2]) : Can(p[2][i], G)
      [] p[1] \in {"group", "interleave"} ->
           IF Len(p) = 3 THEN Can(p[2], G) /\ Can(p[3], G)
           ELSE \A i \in 1..Len(p[2]) : Can(p[2][i], G)
      [] p[1] = "after" -> Can(p[2], G) /\ Can(p[3], G)
      [] p[1] \in {"oneOrMore", "mixed", "list"} -> Can(p[2], G)
      [] p[1] \in {"element", "attribute"} -> Can(p[3], G)
      [] p[1] = "ref" -> p[2] \in G
      [] OTHER -> TRUE
RECURSIVE CanDefs(_, _)
CanDefs(D, G) == LET H == {n \in DOMAIN D : Can(D[n], G)} IN IF H = G THEN G ELSE CanDefs(D, H)
Possible(p, D) == p # NA /\ Can(p, CanDefs(D, {}))

\* the same answer from both sides
Agree(x, DX, y, DY) == (x = NA) = (y = NA) \/ Possible(x, DX) = Possible(y, DY)
=============================================================================
