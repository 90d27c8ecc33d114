----------------------------- MODULE TraceData ------------------------------
(***************************************************************************)
(* Binds Datatypes to the implementation.  A case is a datatype with       *)
(* facets and excepted values, or a typed value; whether the schema using  *)
(* it compiled; and, for many strings, whether they were accepted as the   *)
(* content of an element or the value of an attribute of that type.        *)
(*                                                                         *)
(* Cases: [id, kind: "data"|"value", t, params, value, except: <<chars..>>,*)
(*   compiled: "ok" | kind of error | "crash",                             *)
(*   strs: <<chars..>>, acc: <<"ok"|"no"|"crash"..>>,                      *)
(*   said: <<>> or <<[bounded, min, max: <<answers>>, re: <<0|1 per        *)
(*   string>>]>>, what the accessors of the compiled datatype answer,      *)
(*   where an answer is the characters of a number, "none" or "panic" as   *)
(*   <<kind, chars>>]                                                      *)
(***************************************************************************)
EXTENDS Datatypes, TLC, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, i
vars == <<c, i>>

ValueOk(t, v) == InLexicalSpace(t, Normalize(t, v))
CompileOk(k) ==
    IF k.kind = "value" THEN ValueOk(k.t, k.value)
    ELSE FacetsOk(k.t, k.params) /\ \A j \in 1..Len(k.except) : ValueOk(k.t, k.except[j])
Accepts(k, s) ==
    IF k.kind = "value" THEN ValEq(k.t, k.value, s)
    ELSE DtValid(k.t, k.params, s) /\ \A j \in 1..Len(k.except) : ~ValEq(k.t, k.except[j], s)

Say(what, k, s, e) == PrintT(<<"@@MISMATCH", k.id, what, s, e>>)

Schema(k) == CASE k.compiled = "crash" -> Say("the schema crashes", k, 0, "")
               [] CompileOk(k) /\ k.compiled # "ok" -> Say("the schema should be accepted", k, 0, "")
               [] ~CompileOk(k) /\ k.compiled = "ok" -> Say("the schema should be rejected", k, 0, "")
               [] ~CompileOk(k) /\ k.compiled # "DatatypeError" -> Say("another error is expected", k, 0, "DatatypeError")
               [] OTHER -> TRUE
String(k, j) == LET e == Accepts(k, k.strs[j])
                IN  IF k.acc[j] = "crash" THEN Say("validation crashes", k, j, "")
                    ELSE IF e # (k.acc[j] = "ok") THEN Say(IF e THEN "should be accepted" ELSE "should be rejected", k, j, "")
                    ELSE TRUE

\* the facets as the compiled datatype tells them
Agrees(ans, v) == \/ ans[1] = "none" /\ v = Unbounded
                  \/ ans[1] = "number" /\ v \notin {Unbounded, NoSuch} /\ DecCmp(DoubleOf(ans[2]), v) = 0
Patterns(p) == {j \in 1..Len(p) : p[j][1] = "pattern"}
Said(k, f) ==
    /\ f.bounded # IsBounded(k.t, k.params) => Say("bounded() is wrong", k, 0, "")
    /\ \A a \in 1..Len(f.min) : ~Agrees(f.min[a], LeastOf(k.t, k.params)) => Say("the least value is wrong", k, 0, f.min[a])
    /\ \A a \in 1..Len(f.max) : ~Agrees(f.max[a], GreatestOf(k.t, k.params)) => Say("the greatest value is wrong", k, 0, f.max[a])
    /\ (k.t \in {"xsd:string", "xsd:normalizedString"} /\ (f.re = <<>>) # (Patterns(k.params) = {} \/ k.strs = <<>>)) => Say("the presence of the pattern is wrong", k, 0, "")
    /\ (f.re # <<>> /\ Cardinality(Patterns(k.params)) = 1) =>
         \A j \in 1..Len(k.strs) : (f.re[j] = 1) # ReMatch(Get(k.params, "pattern"), k.strs[j]) => Say("the reported pattern is another", k, j, "")

Init == c \in 1..Len(Cases) /\ i = 0
Next == /\ LET k == Cases[c]
           IN  IF i = 0 THEN /\ Schema(k) = TRUE
                            /\ (k.said # <<>> => Said(k, k.said[1])) = TRUE
               ELSE /\ (k.compiled = "ok" /\ CompileOk(k)) = TRUE
                    /\ i <= Len(k.strs)
                    /\ String(k, i) = TRUE
        /\ i' = i + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
