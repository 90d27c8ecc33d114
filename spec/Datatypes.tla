----------------------------- MODULE Datatypes ------------------------------
(***************************************************************************)
(* The two datatype libraries: the RELAX NG built-in types `string' and    *)
(* `token', and the XML Schema types the implementation supports ("xsd:"). *)
(*                                                                         *)
(* A datatype is [type, params]; params is a sequence of <<name, value>>   *)
(* where value is a string of characters, or a regular expression for the  *)
(* pattern facet.                                                          *)
(***************************************************************************)
EXTENDS Regex

------------------------------------------------------------------------------
(* Decimal numbers of any size: [neg, int, frac] with no leading zeros in
   int, no trailing zeros in frac, and zero never negative.                 *)

Dec(neg, i, f) == LET ii == StripZeros(i)  ff == StripTrailing(f)
                  IN  [neg |-> neg /\ (ii # <<>> \/ ff # <<>>), int |-> ii, frac |-> ff]

HasSign(s) == s # <<>> /\ s[1] \in {43, 45}
Unsigned(s) == IF HasSign(s) THEN Tail(s) ELSE s
IsNeg(s) == s # <<>> /\ s[1] = 45

IsIntLex(s) == LET u == Unsigned(s) IN u # <<>> /\ AllDigits(u)
IsDecLex(s) ==
    LET u == Unsigned(s)
        d == Find(u, 46, 1)
    IN  IF d = 0 THEN u # <<>> /\ AllDigits(u)
        ELSE /\ Len(u) > 1
             /\ AllDigits(SubSeq(u, 1, d - 1)) /\ AllDigits(SubSeq(u, d + 1, Len(u)))
DecOf(s) ==
    LET u == Unsigned(s)
        d == Find(u, 46, 1)
    IN  IF d = 0 THEN Dec(IsNeg(s), u, <<>>)
        ELSE Dec(IsNeg(s), SubSeq(u, 1, d - 1), SubSeq(u, d + 1, Len(u)))

MagCmp(a, b) ==
    IF Len(a.int) # Len(b.int) THEN (IF Len(a.int) < Len(b.int) THEN -1 ELSE 1)
    ELSE LET c == LexCmp(a.int, b.int)
         IN  IF c # 0 THEN c ELSE LexCmp(a.frac, b.frac)
DecCmp(a, b) ==
    IF a.neg /\ ~b.neg THEN -1
    ELSE IF ~a.neg /\ b.neg THEN 1
    ELSE IF a.neg THEN MagCmp(b, a) ELSE MagCmp(a, b)

Digits(n) == n  \* documentation only: digit strings are written as code points
D1 == <<49>>
IntBound(digs, neg) == Dec(neg, digs, <<>>)
\* 32767, 32768, 65535, 2147483647, ... as code points
CodePoints(s) == [i \in 1..Len(s) |-> s[i] + 48]
N0 == CodePoints(<<0>>)
N1 == CodePoints(<<1>>)
N32767 == CodePoints(<<3,2,7,6,7>>)
N32768 == CodePoints(<<3,2,7,6,8>>)
N65535 == CodePoints(<<6,5,5,3,5>>)
N2147483647 == CodePoints(<<2,1,4,7,4,8,3,6,4,7>>)
N2147483648 == CodePoints(<<2,1,4,7,4,8,3,6,4,8>>)
N4294967295 == CodePoints(<<4,2,9,4,9,6,7,2,9,5>>)
N9223372036854775807 == CodePoints(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)
N9223372036854775808 == CodePoints(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>)
N18446744073709551615 == CodePoints(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)

\* <<lower, upper>> where <<>> means unbounded
IntRange(t) ==
    CASE t = "xsd:short" -> <<IntBound(N32768, TRUE), IntBound(N32767, FALSE)>>
      [] t = "xsd:unsignedShort" -> <<IntBound(N0, FALSE), IntBound(N65535, FALSE)>>
      [] t = "xsd:int" -> <<IntBound(N2147483648, TRUE), IntBound(N2147483647, FALSE)>>
      [] t = "xsd:unsignedInt" -> <<IntBound(N0, FALSE), IntBound(N4294967295, FALSE)>>
      [] t = "xsd:long" -> <<IntBound(N9223372036854775808, TRUE), IntBound(N9223372036854775807, FALSE)>>
      [] t = "xsd:unsignedLong" -> <<IntBound(N0, FALSE), IntBound(N18446744073709551615, FALSE)>>
      [] t = "xsd:positiveInteger" -> <<IntBound(N1, FALSE), <<>>>>
      [] OTHER -> <<<<>>, <<>>>>
IntTypes == {"xsd:integer", "xsd:positiveInteger", "xsd:long", "xsd:int", "xsd:short",
             "xsd:unsignedLong", "xsd:unsignedInt", "xsd:unsignedShort"}
NumTypes == IntTypes \cup {"xsd:decimal", "xsd:double"}

InIntRange(t, v) ==
    LET r == IntRange(t)
    IN  /\ r[1] = <<>> \/ DecCmp(r[1], v) <= 0
        /\ r[2] = <<>> \/ DecCmp(v, r[2]) <= 0

------------------------------------------------------------------------------
(* xsd:double: mantissa, optional exponent, or one of three names.  Values
   are compared exactly (the checks keep to values that are far enough
   apart for rounding not to matter).                                       *)
ExpPos(s) == LET e == Find(s, 101, 1)  f == Find(s, 69, 1) IN IF e # 0 THEN e ELSE f
INF == <<73, 78, 70>>
NaN == <<78, 97, 78>>
IsDoubleLex(s) ==
    \/ s = INF \/ s = <<45>> \o INF \/ s = NaN
    \/ LET e == ExpPos(s)
       IN  IF e = 0 THEN IsDecLex(s)
           ELSE IsDecLex(SubSeq(s, 1, e - 1)) /\ IsIntLex(SubSeq(s, e + 1, Len(s)))
Zeros(n) == [i \in 1..n |-> 48]
\* d * 10^e
Shift(d, e) ==
    IF e >= 0 THEN
        LET pad == IF Len(d.frac) < e THEN Zeros(e - Len(d.frac)) ELSE <<>>
            f == d.frac \o pad
        IN  Dec(d.neg, d.int \o SubSeq(f, 1, e), SubSeq(f, e + 1, Len(f)))
    ELSE
        LET n == 0 - e
            pad == IF Len(d.int) < n THEN Zeros(n - Len(d.int)) ELSE <<>>
            i == pad \o d.int
        IN  Dec(d.neg, SubSeq(i, 1, Len(i) - n), SubSeq(i, Len(i) - n + 1, Len(i)) \o d.frac)
DoubleOf(s) ==
    LET e == ExpPos(s)
    IN  IF e = 0 THEN DecOf(s)
        ELSE LET x == SubSeq(s, e + 1, Len(s))
             IN  Shift(DecOf(SubSeq(s, 1, e - 1)),
                       IF IsNeg(x) THEN 0 - NatVal(Unsigned(x)) ELSE NatVal(Unsigned(x)))
\* comparison of double lexicals; NaN is comparable to nothing
DblLe(a, b, strict) ==
    IF a = NaN \/ b = NaN THEN FALSE
    ELSE IF a = INF THEN b = INF /\ ~strict
    ELSE IF a = <<45>> \o INF THEN b # a \/ ~strict
    ELSE IF b = INF THEN TRUE
    ELSE IF b = <<45>> \o INF THEN FALSE
    ELSE LET c == DecCmp(DoubleOf(a), DoubleOf(b)) IN IF strict THEN c < 0 ELSE c <= 0

------------------------------------------------------------------------------
(* Dates.                                                                   *)
Slice(s, i, j) == SubSeq(s, i, j)
Dig(s, i, n) == i + n - 1 <= Len(s) /\ AllDigits(SubSeq(s, i, i + n - 1))
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] OTHER -> 31
\* four-digit years only (the checks keep to those), optional minus sign
NoSign(s) == IF At(s, 1) = 45 THEN Tail(s) ELSE s
DateAt(s) ==
    /\ Dig(s, 1, 4) /\ At(s, 5) = 45 /\ Dig(s, 6, 2) /\ At(s, 8) = 45 /\ Dig(s, 9, 2)
    /\ LET y == NatVal(Slice(s, 1, 4))  m == NatVal(Slice(s, 6, 7))  d == NatVal(Slice(s, 9, 10))
       IN  y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
IsZone(s) ==
    \/ s = <<>> \/ s = <<90>>
    \/ /\ Len(s) = 6 /\ s[1] \in {43, 45} /\ Dig(s, 2, 2) /\ s[4] = 58 /\ Dig(s, 5, 2)
       /\ LET h == NatVal(Slice(s, 2, 3))  m == NatVal(Slice(s, 5, 6))
          IN  (h < 14 /\ m < 60) \/ (h = 14 /\ m = 0)
IsDateLex(s0) == LET s == NoSign(s0)
                 IN  DateAt(s) /\ IsZone(SubSeq(s, 11, Len(s)))
RECURSIVE DigitRun(_, _)
DigitRun(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitRun(s, i + 1) ELSE i
IsTimeZone(s) ==
    /\ Len(s) >= 8
    /\ Dig(s, 1, 2) /\ s[3] = 58 /\ Dig(s, 4, 2) /\ s[6] = 58 /\ Dig(s, 7, 2)
    /\ LET h == NatVal(Slice(s, 1, 2))  m == NatVal(Slice(s, 4, 5))  x == NatVal(Slice(s, 7, 8))
           e == IF At(s, 9) = 46 THEN DigitRun(s, 10) ELSE 9
           frac == IF At(s, 9) = 46 THEN SubSeq(s, 10, e - 1) ELSE <<>>
       IN  /\ (h < 24 /\ m < 60 /\ x < 60)
              \/ (h = 24 /\ m = 0 /\ x = 0 /\ StripZeros(frac) = <<>>)
           /\ At(s, 9) = 46 => e > 10
           /\ IsZone(SubSeq(s, e, Len(s)))
IsDateTimeLex(s0) ==
    LET s == NoSign(s0)
    IN  DateAt(s) /\ At(s, 11) = 84 /\ IsTimeZone(SubSeq(s, 12, Len(s)))

(* xsd:duration: -?P(nY)?(nM)?(nD)?(T(nH)?(nM)?(n(.n)?S)?)? with at least one
   component, and at least one after T                                       *)
\* consume "n<unit>" at i if present; returns the next position
Comp(s, i, unit) == LET j == DigitRun(s, i) IN IF j > i /\ At(s, j) = unit THEN j + 1 ELSE i
CompSec(s, i) ==
    LET j == DigitRun(s, i)
    IN  IF j = i THEN i
        ELSE IF At(s, j) = 83 THEN j + 1
        ELSE IF At(s, j) = 46
             THEN LET k == DigitRun(s, j + 1)
                  IN  IF k > j + 1 /\ At(s, k) = 83 THEN k + 1 ELSE i
             ELSE i
IsDurationLex(s0) ==
    LET s == NoSign(s0)
        d1 == Comp(s, 2, 89)
        d2 == Comp(s, d1, 77)
        d3 == Comp(s, d2, 68)
        t == At(s, d3) = 84
        t1 == Comp(s, d3 + 1, 72)
        t2 == Comp(s, t1, 77)
        t3 == CompSec(s, t2)
    IN  /\ At(s, 1) = 80
        /\ IF t THEN t3 > d3 + 1 /\ t3 = Len(s) + 1
           ELSE d3 > 2 /\ d3 = Len(s) + 1

(* language: [a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})* *)
RECURSIVE Segments(_, _, _)
Segments(s, i, cur) ==
    IF i > Len(s) THEN <<cur>>
    ELSE IF s[i] = 45 THEN <<cur>> \o Segments(s, i + 1, <<>>)
    ELSE Segments(s, i + 1, Append(cur, s[i]))
IsLanguageLex(s) ==
    LET g == Segments(s, 1, <<>>)
    IN  /\ \A i \in 1..Len(g) : Len(g[i]) \in 1..8
        /\ \A i \in 1..Len(g[1]) : IsAlpha(g[1][i])
        /\ \A k \in 2..Len(g) : \A i \in 1..Len(g[k]) : IsAlpha(g[k][i]) \/ IsDigit(g[k][i])

(* anyURI, on the ASCII subset the checks use: the characters of RFC 3986
   without brackets, complete percent escapes, at most one fragment, and a
   well-formed scheme before a colon that comes before any / ? or #          *)
UriChar(c) == IsAlpha(c) \/ IsDigit(c)
              \/ c \in {45, 46, 95, 126, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 58, 64, 47, 63, 35, 37}
FirstOf(s, cs) == LET h == {i \in 1..Len(s) : s[i] \in cs}
                  IN  IF h = {} THEN Len(s) + 1 ELSE CHOOSE i \in h : \A j \in h : i <= j
IsUriLex(s) ==
    /\ \A i \in 1..Len(s) : UriChar(s[i])
    /\ \A i \in 1..Len(s) : s[i] = 37 => (i + 2 <= Len(s) /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2]))
    /\ Cardinality({i \in 1..Len(s) : s[i] = 35}) <= 1
    /\ LET c == FirstOf(s, {58})  d == FirstOf(s, {47, 63, 35})
       IN  c < d => /\ c > 1 /\ IsAlpha(s[1])
                    /\ \A i \in 1..(c - 1) : IsAlpha(s[i]) \/ IsDigit(s[i]) \/ s[i] \in {43, 45, 46}

------------------------------------------------------------------------------
(* Types.                                                                   *)
TRUEs == {<<116, 114, 117, 101>>, <<49>>}
FALSEs == {<<102, 97, 108, 115, 101>>, <<48>>}

WhiteSpace(t) ==
    CASE t \in {"string", "xsd:string"} -> "preserve"
      [] t = "xsd:normalizedString" -> "replace"
      [] OTHER -> "collapse"
Normalize(t, s) == CASE WhiteSpace(t) = "preserve" -> s
                     [] WhiteSpace(t) = "replace" -> Replace(s)
                     [] OTHER -> Collapse(s)

\* s is already normalised
InLexicalSpace(t, s) ==
    CASE t \in {"string", "token", "xsd:string", "xsd:normalizedString", "xsd:token"} -> TRUE
      [] t \in IntTypes -> IsIntLex(s) /\ InIntRange(t, DecOf(s))
      [] t = "xsd:decimal" -> IsDecLex(s)
      [] t = "xsd:double" -> IsDoubleLex(s)
      [] t = "xsd:boolean" -> s \in TRUEs \cup FALSEs
      [] t \in {"xsd:NCName", "xsd:ID", "xsd:IDREF"} -> IsNCName(s)
      [] t = "xsd:NMTOKEN" -> IsNmtoken(s)
      [] t = "xsd:NMTOKENS" -> LET w == SplitWs(s) IN w # <<>> /\ \A i \in 1..Len(w) : IsNmtoken(w[i])
      [] t = "xsd:language" -> IsLanguageLex(s)
      [] t = "xsd:anyURI" -> IsUriLex(s)
      [] t = "xsd:date" -> IsDateLex(s)
      [] t = "xsd:dateTime" -> IsDateTimeLex(s)
      [] t = "xsd:duration" -> IsDurationLex(s)

LengthOf(t, s) == IF t = "xsd:NMTOKENS" THEN Len(SplitWs(s)) ELSE Len(s)

NumLe(t, a, b, strict) ==
    IF t = "xsd:double" THEN DblLe(a, b, strict)
    ELSE LET c == DecCmp(DecOf(a), DecOf(b)) IN IF strict THEN c < 0 ELSE c <= 0

TotalDigits(s) == LET d == DecOf(s)
                      i == d.int \o d.frac
                  IN  IF i = <<>> THEN 1 ELSE Len(d.int) + Len(d.frac)
FractionDigits(s) == Len(DecOf(s).frac)

\* does the (normalised, lexically valid) string s satisfy the facet f?
Satisfies(t, f, s) ==
    CASE f[1] = "length" -> LengthOf(t, s) = NatVal(f[2])
      [] f[1] = "minLength" -> LengthOf(t, s) >= NatVal(f[2])
      [] f[1] = "maxLength" -> LengthOf(t, s) <= NatVal(f[2])
      [] f[1] = "pattern" -> ReMatch(f[2], s)
      [] f[1] = "minInclusive" -> NumLe(t, f[2], s, FALSE)
      [] f[1] = "minExclusive" -> NumLe(t, f[2], s, TRUE)
      [] f[1] = "maxInclusive" -> NumLe(t, s, f[2], FALSE)
      [] f[1] = "maxExclusive" -> NumLe(t, s, f[2], TRUE)
      [] f[1] = "totalDigits" -> TotalDigits(s) <= NatVal(f[2])
      [] f[1] = "fractionDigits" -> FractionDigits(s) <= NatVal(f[2])

DtValid(t, params, raw) ==
    LET s == Normalize(t, raw)
    IN  /\ InLexicalSpace(t, s)
        /\ \A i \in 1..Len(params) : Satisfies(t, params[i], s)

------------------------------------------------------------------------------
(* When is a set of facets acceptable?  (C17, C18)                          *)
LengthTypes == {"xsd:string", "xsd:normalizedString", "xsd:token", "xsd:NCName",
                "xsd:NMTOKEN", "xsd:NMTOKENS"}
NoPatternTypes == {"xsd:token", "xsd:NCName", "xsd:NMTOKEN", "xsd:NMTOKENS"}
Names(params) == {params[i][1] : i \in 1..Len(params)}
Get(params, n) == LET i == CHOOSE i \in 1..Len(params) : params[i][1] = n IN params[i][2]
Has(params, n) == n \in Names(params)
Count(params, n) == Cardinality({i \in 1..Len(params) : params[i][1] = n})
LengthFacets == {"length", "minLength", "maxLength"}
BoundFacets == {"minInclusive", "minExclusive", "maxInclusive", "maxExclusive"}
DigitFacets == {"totalDigits", "fractionDigits"}

FacetApplies(t, n) ==
    CASE n \in LengthFacets -> t \in LengthTypes
      [] n \in BoundFacets -> t \in NumTypes
      [] n \in DigitFacets -> t = "xsd:decimal"
      [] n = "pattern" -> t \notin NoPatternTypes \cup {"string", "token"}
      [] OTHER -> FALSE

BoundLex(t, s) == CASE t \in IntTypes -> IsIntLex(s) /\ InIntRange(t, DecOf(s))
                    [] t = "xsd:decimal" -> IsDecLex(s)
                    [] t = "xsd:double" -> IsDoubleLex(s) /\ s \notin {INF, <<45>> \o INF, NaN}
                    [] OTHER -> FALSE
FacetValueOk(t, f) ==
    CASE f[1] \in LengthFacets \cup DigitFacets -> f[2] # <<>> /\ AllDigits(f[2])
      [] f[1] \in BoundFacets -> BoundLex(t, f[2])
      [] OTHER -> TRUE

Contradictory(t, p) ==
    \/ \E n \in LengthFacets \cup BoundFacets : Count(p, n) > 1
    \/ Has(p, "length") /\ (Has(p, "minLength") \/ Has(p, "maxLength"))
    \/ Has(p, "minLength") /\ Has(p, "maxLength")
         /\ NatVal(Get(p, "minLength")) > NatVal(Get(p, "maxLength"))
    \/ Has(p, "minInclusive") /\ Has(p, "minExclusive")
    \/ Has(p, "maxInclusive") /\ Has(p, "maxExclusive")
    \/ \E lo \in {"minInclusive", "minExclusive"}, hi \in {"maxInclusive", "maxExclusive"} :
         /\ Has(p, lo)
         /\ Has(p, hi)
         /\ LET strict == (lo = "minInclusive") # (hi = "maxInclusive")
            IN  ~NumLe(t, Get(p, lo), Get(p, hi), strict)

FacetsOk(t, p) ==
    /\ \A i \in 1..Len(p) : FacetApplies(t, p[i][1])
    /\ \A i \in 1..Len(p) : FacetValueOk(t, p[i])
    /\ ~Contradictory(t, p)

------------------------------------------------------------------------------
(* What the compiled datatype says about its facets (C25).                  *)
RECURSIVE Inc(_), Decr(_)
\* the digits of n + 1 and, for n > 0, of n - 1
Inc(d) == IF d = <<>> THEN <<49>>
          ELSE IF d[Len(d)] = 57 THEN Inc(SubSeq(d, 1, Len(d) - 1)) \o <<48>>
          ELSE [d EXCEPT ![Len(d)] = @ + 1]
Decr(d) == IF d[Len(d)] = 48 THEN Decr(SubSeq(d, 1, Len(d) - 1)) \o <<57>>
           ELSE [d EXCEPT ![Len(d)] = @ - 1]
\* the next and the previous integer
Succ(v) == IF v.neg THEN Dec(TRUE, Decr(v.int), <<>>) ELSE Dec(FALSE, Inc(v.int), <<>>)
Pred(v) == IF v.neg \/ v.int = <<>> THEN Dec(TRUE, Inc(v.int), <<>>) ELSE Dec(FALSE, Decr(v.int), <<>>)
Unbounded == [neg |-> FALSE, int |-> <<>>, frac |-> <<0>>]
\* between a decimal and the next one there are others
NoSuch == [neg |-> FALSE, int |-> <<>>, frac |-> <<1>>]
\* least and greatest value (of a numeric type) or length that the facets declare; integers only for exclusive bounds
LeastOf(t, p) ==
    CASE t \in LengthTypes -> IF Has(p, "length") THEN DecOf(Get(p, "length"))
                              ELSE IF Has(p, "minLength") THEN DecOf(Get(p, "minLength")) ELSE Unbounded
      [] Has(p, "minInclusive") -> DecOf(Get(p, "minInclusive"))
      [] Has(p, "minExclusive") -> IF t = "xsd:decimal" THEN NoSuch ELSE Succ(DecOf(Get(p, "minExclusive")))
      [] OTHER -> Unbounded
GreatestOf(t, p) ==
    CASE t \in LengthTypes -> IF Has(p, "length") THEN DecOf(Get(p, "length"))
                              ELSE IF Has(p, "maxLength") THEN DecOf(Get(p, "maxLength")) ELSE Unbounded
      [] Has(p, "maxInclusive") -> DecOf(Get(p, "maxInclusive"))
      [] Has(p, "maxExclusive") -> IF t = "xsd:decimal" THEN NoSuch ELSE Pred(DecOf(Get(p, "maxExclusive")))
      [] OTHER -> Unbounded
IsBounded(t, p) == Names(p) \cap (IF t \in LengthTypes THEN LengthFacets ELSE BoundFacets) # {}

------------------------------------------------------------------------------
(* Equality of the strings a and b as values of a type (RELAX NG: value):
   both stand for the same value.  Dates and durations are compared as they
   are written.                                                             *)
ValEq(t, a, b) ==
    LET x == Normalize(t, a)
        y == Normalize(t, b)
    IN  /\ InLexicalSpace(t, x) /\ InLexicalSpace(t, y)
        /\ \/ x = y
           \/ t \in IntTypes \cup {"xsd:decimal"} /\ DecCmp(DecOf(x), DecOf(y)) = 0
           \/ t = "xsd:double" /\ DblLe(x, y, FALSE) /\ DblLe(y, x, FALSE)
           \/ t = "xsd:boolean" /\ (x \in TRUEs) = (y \in TRUEs)
=============================================================================
