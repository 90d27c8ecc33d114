------------------------------ MODULE Compose --------------------------------
(***************************************************************************)
(* What a schema made of several files means: one pattern and its          *)
(* definitions (the surface patterns of Rng), or what is wrong with it.    *)
(*                                                                         *)
(* A file is [decls, body] (see Compact).  Patterns as they are written    *)
(* differ from those of Rng in                                             *)
(*   <<"element", nc, p, at>> <<"attribute", nc, p, at>>                   *)
(*   <<"ref", name, at>> <<"parentref", name, at>>                         *)
(*   <<"value", lib, type, chars, at>>                                     *)
(*   <<"data", lib, type, params, except, at>>                             *)
(*        lib: <<"pre", prefix>> | <<"uri", u>>                            *)
(*   <<"external", file, inherit, at>>   <<"grammar", items, at>>          *)
(*   name classes <<"u", local>> <<"q", prefix, local, at>>                *)
(*        <<"nsq", prefix, except, at>>, and <<"d", local>> <<"nsd",       *)
(*        except>> of the namespace that the file inherits                 *)
(* and the items of a grammar are                                          *)
(*   <<"define", name, method, p, at>>   <<"div", items>>                  *)
(*   <<"include", file, inherit, overrides, at>>                           *)
(* File names are sequences of segments.  at is the place of the part of   *)
(* the construct that an error is about.                                   *)
(***************************************************************************)
EXTENDS Rng, TLC
LOCAL INSTANCE SequencesExt

XsdUri == "http://www.w3.org/2001/XMLSchema-datatypes"
XmlUri == "http://www.w3.org/XML/1998/namespace"
XsdTypes == {"string", "normalizedString", "token", "short", "unsignedShort", "long", "int", "integer",
             "positiveInteger", "unsignedInt", "unsignedLong", "decimal", "double", "NMTOKENS", "NMTOKEN",
             "NCName", "duration", "date", "dateTime", "anyURI", "language", "boolean", "ID", "IDREF"}

Assoc(as, k) == as[CHOOSE i \in 1..Len(as) : as[i][1] = k /\ \A j \in 1..(i - 1) : as[j][1] # k][2]
InAssoc(as, k) == \E i \in 1..Len(as) : as[i][1] = k

------------------------------------------------------------------------------
(* File names. *)
\* a name that begins with an empty segment is absolute
RECURSIVE NormSegs(_, _)
NormSegs(done, rest) ==
    IF rest = <<>> THEN done
    ELSE LET s == rest[1]
             last == IF done = <<>> THEN ".." ELSE done[Len(done)]
         IN  NormSegs(IF s \in {".", ""} \/ (s = ".." /\ last = "") THEN done
                      ELSE IF s = ".." /\ last # ".." THEN SubSeq(done, 1, Len(done) - 1)
                      ELSE Append(done, s), Tail(rest))
\* the file that href in file refers to
FileRef(file, href) ==
    LET dir == SubSeq(file, 1, Len(file) - 1)
    IN  IF href[1] = "" /\ Len(href) > 1 THEN NormSegs(<<"">>, Tail(href))
        ELSE IF dir # <<>> /\ dir[1] = "" THEN NormSegs(<<"">>, Tail(dir) \o href)
        ELSE NormSegs(<<>>, dir \o href)

FileAt(files, path) == {i \in 1..Len(files) : files[i].path = path}

------------------------------------------------------------------------------
(* The result of reading a part of a schema. *)
\* p: what it is; defs: the definitions it makes; errs: what is wrong with it;
\* tol: errors that may be reported; files: what had to be read; names: the
\* names it defines, even if an override then takes their place
Res(p) == [p |-> p, defs |-> <<>>, errs |-> {}, tol |-> {}, files |-> {}, names |-> {}]
Plus2(a, b, p) == [p |-> p, defs |-> a.defs \o b.defs, errs |-> a.errs \cup b.errs, tol |-> a.tol \cup b.tol,
                   files |-> a.files \cup b.files, names |-> a.names \cup b.names]
Bad2(a, es) == [a EXCEPT !.errs = @ \cup es]
\* an error: its kind, the name it mentions, and the places it may point to
Error(kind, id, ats) == [k |-> kind, id |-> id, at |-> ats]

------------------------------------------------------------------------------
(* Declarations. *)
DeclUri(u, E) == IF u[1] = "inherit" THEN E.inh ELSE u[2]
RECURSIVE Declare(_, _)
Declare(ds, E) ==
    IF ds = <<>> THEN E
    ELSE LET d == ds[1]
         IN  Declare(Tail(ds),
                CASE d[1] = "ns" -> [E EXCEPT !.ns = Append(@, <<d[2], DeclUri(d[3], E)>>)]
                  [] d[1] = "default" ->
                       [E EXCEPT !.def = DeclUri(d[3], E),
                                 !.ns = IF d[2] = "" THEN @ ELSE Append(@, <<d[2], DeclUri(d[3], E)>>)]
                  [] d[1] = "dt" -> [E EXCEPT !.dt = Append(@, <<d[2], d[3]>>)])
FileEnv(E, path, inh, decls) ==
    Declare(decls, [E EXCEPT !.file = path, !.open = Append(@, path), !.inh = inh, !.def = inh,
                             !.ns = << <<"xml", XmlUri>> >>, !.dt = << <<"xsd", XsdUri>> >>])
\* a datatypes prefix declared for two different URIs
DtClash(decls) ==
    \/ \E i, j \in 1..Len(decls) : /\ decls[i][1] = "dt" /\ decls[j][1] = "dt"
                                  /\ decls[i][2] = decls[j][2] /\ decls[i][3] # decls[j][3]
    \/ \E i \in 1..Len(decls) : decls[i][1] = "dt" /\ decls[i][2] = "xsd" /\ decls[i][3] # XsdUri

------------------------------------------------------------------------------
(* Name classes: Res whose p is a name class of Rng. *)
RECURSIVE Nc(_, _, _)
Nc(n, E, isAttr) ==
    CASE n[1] = "u" -> Res(<<"name", IF isAttr THEN "" ELSE E.def, n[2]>>)
      [] n[1] = "d" -> Res(<<"name", E.def, n[2]>>)
      [] n[1] = "nsd" -> LET x == Nc(n[2], E, isAttr) IN Plus2(x, x, <<"nsName", E.def, x.p>>)
      [] n[1] = "q" -> IF InAssoc(E.ns, n[2]) THEN Res(<<"name", Assoc(E.ns, n[2]), n[3]>>)
                       ELSE Bad2(Res(<<"none">>), {Error("UndefinedNamespacePrefix", n[2], {n[4]})})
      [] n[1] = "nsq" ->
           LET x == Nc(n[3], E, isAttr)
           IN  IF InAssoc(E.ns, n[2]) THEN Plus2(x, x, <<"nsName", Assoc(E.ns, n[2]), x.p>>)
               ELSE Bad2(x, {Error("UndefinedNamespacePrefix", n[2], {n[4]})})
      [] n[1] = "anyName" -> LET x == Nc(n[2], E, isAttr) IN Plus2(x, x, <<"anyName", x.p>>)
      [] n[1] = "nsName" -> LET x == Nc(n[3], E, isAttr) IN Plus2(x, x, <<"nsName", n[2], x.p>>)
      [] n[1] = "alt" -> LET x == Nc(n[2], E, isAttr)  y == Nc(n[3], E, isAttr)
                         IN  Plus2(x, y, <<"alt", x.p, y.p>>)
      [] n[1] \in {"name", "none"} -> Res(n)

------------------------------------------------------------------------------
(* Patterns and grammars. *)
RECURSIVE Read(_, _), ReadItem(_, _), ReadFile(_, _, _, _)

At1(E, k) == [E EXCEPT !.occ = Append(@, k)]
\* the results of several parts in order, together
Gather(xs, p) ==
    LET is == 1..Len(xs)
    IN  [p |-> p, defs |-> FoldLeft(LAMBDA l, x : l \o x.defs, <<>>, xs), errs |-> UNION {xs[i].errs : i \in is},
         tol |-> UNION {xs[i].tol : i \in is}, files |-> UNION {xs[i].files : i \in is},
         names |-> UNION {xs[i].names : i \in is}]
ReadAll(ps, E) ==
    LET xs == TLCEval([i \in 1..Len(ps) |-> Read(ps[i], At1(E, i))])
    IN  Gather(xs, [i \in 1..Len(ps) |-> xs[i].p])
ReadItems(items, E) == Gather(TLCEval([i \in 1..Len(items) |-> ReadItem(items[i], At1(E, i))]), <<>>)

LibUri(lib, E) == IF lib[1] = "uri" THEN lib[2] ELSE Assoc(E.dt, lib[2])
LibAts(lib, at) == {at} \cup (IF Len(lib) = 3 THEN {lib[3]} ELSE {})
LibKnown(lib, E) == lib[1] = "uri" \/ InAssoc(E.dt, lib[2])
LibBad(lib, at) == Bad2(Res(NA), {Error("UndefinedDatatypePrefix", lib[2], {at})})
TypeKnown(u, t) == (u = XsdUri /\ t \in XsdTypes) \/ (u = "" /\ t \in {"string", "token"})
TypeName(u, t) == IF u = XsdUri THEN "xsd:" \o t ELSE t
FacetPairs(ps) == [i \in 1..Len(ps) |-> <<ps[i][1], ps[i][2]>>]

InheritUri(h, E) == IF h[1] = "uri" THEN h[2] ELSE IF h[1] # "none" /\ InAssoc(E.ns, h[2]) THEN Assoc(E.ns, h[2]) ELSE E.def
InheritBad(h, E) == IF h[1] \in {"none", "uri"} \/ InAssoc(E.ns, h[2]) THEN {}
                    ELSE {Error("UndefinedNamespacePrefix", h[2], {h[3]})}

(* References: <<name, place, as written>> within a pattern; with `flat', only those
   outside elements.                                                         *)
RECURSIVE RefsIn(_, _)
RefsIn(p, flat) ==
    CASE p[1] = "ref" -> {<<p[2], p[3], p[4]>>}
      [] p[1] \in {"choice", "group", "interleave"} -> UNION {RefsIn(p[2][i], flat) : i \in 1..Len(p[2])}
      [] p[1] \in {"optional", "zeroOrMore", "oneOrMore", "mixed", "list"} -> RefsIn(p[2], flat)
      [] p[1] = "attribute" -> RefsIn(p[3], flat)
      [] p[1] = "element" -> IF flat THEN {} ELSE RefsIn(p[3], flat)
      [] p[1] = "data" -> IF p[4] = <<"none">> THEN {} ELSE RefsIn(p[4], flat)
      [] OTHER -> {}

\* errors inside what an override replaces do not matter
Calm(r, E) == IF E.dropped THEN [r EXCEPT !.errs = {}, !.tol = @ \cup r.errs] ELSE r

Read(p, E) ==
    CASE p[1] \in {"empty", "text", "notAllowed"} -> Res(p)
      [] p[1] \in {"choice", "group", "interleave"} ->
           LET x == ReadAll(p[2], E) IN Plus2(x, Res(x), <<p[1], x.p>>)
      [] p[1] \in {"optional", "zeroOrMore", "oneOrMore", "mixed", "list"} ->
           LET x == Read(p[2], E) IN Plus2(x, Res(x), <<p[1], x.p>>)
      [] p[1] = "element" ->
           LET n == Nc(p[2], E, FALSE)
               x == Read(p[3], [E EXCEPT !.self = "", !.att = FALSE])
               r == Plus2(n, x, <<"element", n.p, x.p>>)
           IN  IF E.att THEN Bad2(r, {Error("ElementAsChildOfAttribute", "element", {p[4]})}) ELSE r
      [] p[1] = "attribute" ->
           LET n == Nc(p[2], E, TRUE)
               x == Read(p[3], [E EXCEPT !.att = TRUE])
           IN  Plus2(n, x, <<"attribute", n.p, x.p>>)
      [] p[1] = "ref" ->
           LET r == [Res(<<"ref", E.gid \o ":" \o p[2], p[3], p[2]>>) EXCEPT
                        !.tol = IF E.self = E.gid \o ":" \o p[2] THEN {Error("RecursiveReference", p[2], {p[3]})} ELSE {}]
           IN  r
      [] p[1] = "parentref" ->
           IF E.parents = <<>>
           THEN Bad2(Res(NA), {Error("NoParentAvailable", p[2], {p[3]}), Error("UndefinedReference", p[2], {p[3]})})
           ELSE Res(<<"ref", E.parents[Len(E.parents)] \o ":" \o p[2], p[3], p[2]>>)
      [] p[1] = "value" ->
           IF ~LibKnown(p[2], E) THEN LibBad(p[2], p[5])
           ELSE LET u == LibUri(p[2], E)
                IN  IF ~TypeKnown(u, p[3]) THEN Bad2(Res(NA), {Error("DatatypeError", "", LibAts(p[2], p[5]))})
                    ELSE IF ~InLexicalSpace(TypeName(u, p[3]), Normalize(TypeName(u, p[3]), p[4]))
                    THEN [Res(<<"value", TypeName(u, p[3]), p[4]>>) EXCEPT !.tol = {Error("DatatypeError", "", {p[5]})}]
                    ELSE Res(<<"value", TypeName(u, p[3]), p[4]>>)
      [] p[1] = "data" ->
           LET e == IF p[5] = <<"none">> THEN Res(p[5]) ELSE Read(p[5], E)
               u == LibUri(p[2], E)
           IN  IF ~LibKnown(p[2], E) THEN LibBad(p[2], p[6])
               ELSE IF ~TypeKnown(u, p[3]) THEN Bad2(e, {Error("DatatypeError", "", LibAts(p[2], p[6]))})
               ELSE IF ~FacetsOk(TypeName(u, p[3]), FacetPairs(p[4]))
               THEN Bad2(e, {Error("DatatypeError", "", {p[6]} \cup {p[4][i][3] : i \in 1..Len(p[4])})})
               ELSE Plus2(e, Res(e), <<"data", TypeName(u, p[3]), FacetPairs(p[4]), e.p>>)
      [] p[1] = "external" ->
           Bad2(ReadFile(FileRef(E.file, p[2]), p[4], InheritUri(p[3], E), E), InheritBad(p[3], E))
      [] p[1] = "grammar" ->
           LET gid == ToString(E.occ)
               x == ReadItems(p[2], [E EXCEPT !.parents = Append(@, E.gid), !.gid = gid, !.drop = {}])
               r == [x EXCEPT !.p = <<"ref", gid \o ":start", 0, "start">>, !.names = {}]
           IN  IF "start" \in x.names THEN r
               ELSE [r EXCEPT !.p = NA, !.errs = @ \cup {Error("StartRuleNotDefined", "", {p[3], 0})}]

\* the pattern in another file
ReadFile(path, at, inh, E) ==
    LET f == FileAt(E.files, path)
    IN  IF f = {} THEN Bad2(Res(NA), {Error("Io", path, {at})})
        ELSE LET file == E.files[CHOOSE i \in f : TRUE]
                 r == Read(file.body, FileEnv(E, path, inh, file.decls))
                 all == [r EXCEPT !.files = @ \cup {path}]
             IN  IF \E i \in 1..Len(E.open) : E.open[i] = path
                 THEN [Res(NA) EXCEPT !.errs = {Error("RecursiveInclude", "", {at})}, !.files = {path}]
                 ELSE IF ~file.ok THEN [Res(NA) EXCEPT !.errs = {Error("Parse", path, {at, 0})}]
                 ELSE IF DtClash(file.decls) THEN Bad2(all, {Error("DatatypePrefixAlreadyDefined", "", {at, 0})})
                 ELSE all

RECURSIVE ItemNames(_)
\* the names that overrides define
ItemNames(items) == UNION {IF items[i][1] = "define" THEN {items[i][2]} ELSE ItemNames(items[i][2]) : i \in 1..Len(items)}
RECURSIVE NameAts(_, _)
NameAts(items, n) == UNION {IF items[i][1] = "define" THEN (IF items[i][2] = n THEN {items[i][5]} ELSE {})
                            ELSE NameAts(items[i][2], n) : i \in 1..Len(items)}

ReadItem(d, E) ==
    CASE d[1] = "define" ->
           LET gone == d[2] \in E.drop
               E2 == [E EXCEPT !.self = E.gid \o ":" \o d[2], !.att = FALSE, !.dropped = @ \/ gone]
               x == Calm(Read(d[4], E2), E2)
           IN  [x EXCEPT !.p = <<>>, !.names = {d[2]},
                         !.defs = IF gone /\ ~E.dropped THEN @
                                  ELSE @ \o << [n |-> E.gid \o ":" \o d[2], id |-> d[2], m |-> d[3], p |-> x.p, at |-> d[5],
                                                dead |-> E.dropped] >>]
      [] d[1] = "div" -> ReadItems(d[2], E)
      [] d[1] = "include" ->
           LET path == FileRef(E.file, d[2])
               f == FileAt(E.files, path)
               bad == InheritBad(d[3], E)
               over == ReadItems(d[4], [E EXCEPT !.occ = Append(@, 0)])
               names == ItemNames(d[4])
           IN  IF f = {} THEN Bad2(over, {Error("Io", path, {d[5]})} \cup bad)
               ELSE LET file == E.files[CHOOSE i \in f : TRUE]
                        E2 == FileEnv([E EXCEPT !.drop = @ \cup names], path, InheritUri(d[3], E), file.decls)
                        inner == IF file.ok /\ file.body[1] = "grammar" THEN ReadItems(file.body[2], E2) ELSE Res(<<>>)
                        missing == {Error("OverrideMissingFromInclude", n, NameAts(d[4], n)) : n \in names \ inner.names}
                        both == Plus2(over, [inner EXCEPT !.files = @ \cup {path}], <<>>)
                    IN  IF \E i \in 1..Len(E.open) : E.open[i] = path
                        THEN [Bad2(over, bad \cup {Error("RecursiveInclude", "", {d[5]})}) EXCEPT !.files = @ \cup {path}]
                        ELSE IF ~file.ok THEN Bad2(over, bad \cup {Error("Parse", path, {d[5], 0})})
                        ELSE IF DtClash(file.decls) THEN Bad2(both, bad \cup {Error("DatatypePrefixAlreadyDefined", "", {d[5], 0})})
                        ELSE IF file.body[1] # "grammar" THEN Bad2(both, bad \cup {Error("IncludedFileMustBeGrammar", "", {d[5], 0})})
                        ELSE Bad2(both, bad \cup missing)

------------------------------------------------------------------------------
(* Definitions of one name. *)
Entries(defs, n) == SelectSeq(defs, LAMBDA d : d.n = n)
AllAts(ds) == {ds[i].at : i \in 1..Len(ds)}
CombineErrs(ds) ==
    LET plain == SelectSeq(ds, LAMBDA d : d.m = "=")
        methods == {ds[i].m : i \in 1..Len(ds)} \ {"="}
    IN  (IF Len(plain) > 1 THEN {Error("DuplicateDefinition", ds[1].id, AllAts(plain))} ELSE {})
        \cup (IF Cardinality(methods) > 1 THEN {Error("DefineRulesMixesChoiceAndInterleave", ds[1].id, AllAts(ds))} ELSE {})
Combined(ds) ==
    IF Len(ds) = 1 THEN ds[1].p
    ELSE <<IF \E i \in 1..Len(ds) : ds[i].m = "&=" THEN "interleave" ELSE "choice", [i \in 1..Len(ds) |-> ds[i].p]>>

Targets(rs) == {r[1] : r \in rs}
RECURSIVE Reach(_, _)
\* everything reachable from the names in `from' along next (a function to sets of names)
Reach(from, next) ==
    LET more == from \cup UNION {next[n] : n \in from \cap DOMAIN next}
    IN  IF more = from THEN from ELSE Reach(more, next)

\* what the schema calls the definition n
LocalId(defs, n) == LET e == Entries(defs, n) IN IF e = <<>> THEN "" ELSE e[1].id

(* The whole: [start, defs, errs, tol, files].  A schema whose errs is empty
   is correct.                                                               *)
Compose(files, main) ==
    LET E0 == [files |-> files, file |-> main, open |-> <<>>, inh |-> "", def |-> "", ns |-> <<>>, dt |-> <<>>,
               gid |-> "g", parents |-> <<>>, occ |-> <<>>, drop |-> {}, dropped |-> FALSE, self |-> "", att |-> FALSE]
        f == files[CHOOSE i \in FileAt(files, main) : TRUE]
        E == FileEnv(E0, main, "", f.decls)
        r == TLCEval(IF f.body[1] = "grammar" THEN ReadItems(f.body[2], E)
             ELSE LET x == Read(f.body, E)
                  IN  [x EXCEPT !.defs = @ \o << [n |-> "g:start", id |-> "start", m |-> "=", p |-> x.p, at |-> 0, dead |-> FALSE] >>,
                                !.names = {"start"}])
        live == SelectSeq(r.defs, LAMBDA x : ~x.dead)
        dead == SelectSeq(r.defs, LAMBDA x : x.dead)      \* in grammars within definitions that were overridden
        deadNames == {dead[i].n : i \in 1..Len(dead)}
        names == {live[i].n : i \in 1..Len(live)}
        D == TLCEval([n \in names |-> Combined(Entries(live, n))])
        all == TLCEval([n \in names |-> RefsIn(D[n], FALSE)])
        flat == TLCEval([n \in names |-> Targets(RefsIn(D[n], TRUE))])
        undefd == {x \in UNION {all[n] : n \in names} : x[1] \notin names}
        reached == Reach({"g:start"}, TLCEval([n \in names |-> Targets(all[n])]))
        loops == {n \in reached \cap names : n \in Reach(flat[n], flat)}
        loopAts == UNION {{x[2] : x \in {y \in RefsIn(D[n], TRUE) : y[1] \in loops}} : n \in loops}
    IN  IF FileAt(files, main) = {} THEN [start |-> NA, defs |-> <<>>, errs |-> {Error("Io", main, {0})}, tol |-> {}, files |-> {}]
        ELSE IF ~f.ok THEN [start |-> NA, defs |-> <<>>, errs |-> {Error("Parse", main, {0})}, tol |-> {}, files |-> {}]
        ELSE [start |-> IF "g:start" \in names THEN D["g:start"] ELSE NA,
              defs |-> D,
              errs |-> r.errs
                       \cup (IF DtClash(f.decls) THEN {Error("DatatypePrefixAlreadyDefined", "", {0})} ELSE {})
                       \cup (IF "start" \in r.names THEN {} ELSE {Error("StartRuleNotDefined", "", {0})})
                       \cup UNION {CombineErrs(Entries(live, n)) : n \in names}
                       \cup {Error("UndefinedReference", x[3], {x[2]}) : x \in undefd}
                       \cup {Error("RecursiveReference", LocalId(live, n), loopAts) : n \in loops},
              tol |-> r.tol
                      \cup UNION {CombineErrs(Entries(dead, n)) : n \in deadNames}
                      \cup UNION {{Error("UndefinedReference", x[3], {x[2]}) : x \in RefsIn(dead[i].p, FALSE)} : i \in 1..Len(dead)},
              files |-> r.files \cup {main}]
=============================================================================
