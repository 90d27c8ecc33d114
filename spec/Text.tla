-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Character strings.  A string of characters is a sequence of Unicode     *)
(* code points, so that white space, digits and lengths can be talked      *)
(* about; names (of elements, prefixes, definitions, files) are TLA+       *)
(* strings, which are only ever compared.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsWs(c) == c \in {9, 10, 13, 32}
AllWs(s) == \A i \in 1..Len(s) : IsWs(s[i])

InRange(c, lo, hi) == lo <= c /\ c <= hi
IsDigit(c) == InRange(c, 48, 57)
IsUpper(c) == InRange(c, 65, 90)
IsLower(c) == InRange(c, 97, 122)
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsHex(c) == IsDigit(c) \/ InRange(c, 65, 70) \/ InRange(c, 97, 102)

AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])

(* XML 1.0 (5th edition) name characters, without the colon *)
NameStart(c) ==
    \/ IsAlpha(c) \/ c = 95
    \/ InRange(c, 192, 214) \/ InRange(c, 216, 246) \/ InRange(c, 248, 767)
    \/ InRange(c, 880, 893) \/ InRange(c, 895, 8191) \/ InRange(c, 8204, 8205)
    \/ InRange(c, 8304, 8591) \/ InRange(c, 11264, 12271)
    \/ InRange(c, 12289, 55295) \/ InRange(c, 63744, 64975)
    \/ InRange(c, 65008, 65533) \/ InRange(c, 65536, 983039)
NameChar(c) ==
    \/ NameStart(c) \/ IsDigit(c) \/ c \in {45, 46, 183}
    \/ InRange(c, 768, 879) \/ InRange(c, 8255, 8256)
IsNCName(s) == Len(s) > 0 /\ NameStart(s[1]) /\ \A i \in 2..Len(s) : NameChar(s[i])
IsNmtoken(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : NameChar(s[i]) \/ s[i] = 58

(* XML characters *)
IsXmlChar(c) ==
    \/ c \in {9, 10, 13} \/ InRange(c, 32, 55295) \/ InRange(c, 57344, 65533)
    \/ InRange(c, 65536, 1114111)

(* white-space processing of XML Schema part 2 *)
Replace(s) == [i \in 1..Len(s) |-> IF IsWs(s[i]) THEN 32 ELSE s[i]]

(* the maximal white-space free pieces of s, in order *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, cur) ==
    IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
    ELSE IF IsWs(s[i])
         THEN (IF cur = <<>> THEN SplitFrom(s, i + 1, <<>>)
               ELSE <<cur>> \o SplitFrom(s, i + 1, <<>>))
         ELSE SplitFrom(s, i + 1, Append(cur, s[i]))
SplitWs(s) == SplitFrom(s, 1, <<>>)

RECURSIVE JoinSp(_)
JoinSp(ws) == IF ws = <<>> THEN <<>>
              ELSE IF Len(ws) = 1 THEN ws[1]
              ELSE ws[1] \o <<32>> \o JoinSp(Tail(ws))
Collapse(s) == JoinSp(SplitWs(s))

(* first position of c in s at or after i, or 0 *)
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE Find(s, c, i + 1)

RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s
RECURSIVE StripTrailing(_)
StripTrailing(s) == IF s # <<>> /\ s[Len(s)] = 48
                    THEN StripTrailing(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* the value of a short digit string *)
RECURSIVE NatVal(_)
NatVal(s) == IF s = <<>> THEN 0
             ELSE 10 * NatVal(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)

(* three-way lexicographic comparison; a proper prefix is smaller *)
RECURSIVE LexCmp(_, _)
LexCmp(a, b) ==
    IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
    ELSE IF b = <<>> THEN 1
    ELSE IF a[1] < b[1] THEN -1
    ELSE IF a[1] > b[1] THEN 1
    ELSE LexCmp(Tail(a), Tail(b))
=============================================================================
