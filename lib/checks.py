"""One function per property."""
import os, shutil, time
import base, cli, compose, concur, data, docs, dtgen, fam, grammars, long, robust, small

COMMON = ["the XML tokenizer (xmlparser) splits documents as XML 1.0 requires",
          "TLC evaluates the specification correctly"]


def batches(rep, wd, r, tier, makers, quick_s=26, thorough_s=420):
    """run the makers again and again, each time with fresh cases, for the time given; at
    least once each"""
    t0 = time.time()
    end = t0 + (quick_s if tier == "quick" else thorough_s)
    k = 0
    while True:
        jobs = []
        for i, (mk, n) in enumerate(makers):
            made = mk(r, n)
            for j in made:
                j.sid = "b%d_%d_%s" % (k, i, j.sid)
            jobs += made
        d = os.path.join(wd, "b%d" % k)
        os.makedirs(d)
        t1 = time.time()
        docs.run(rep, jobs, d)
        shutil.rmtree(d, ignore_errors=True)
        k += 1
        spent = time.time() - t1
        if rep.violations or enough(k, t0, spent, end):
            break
    return k


def enough(k, t0, spent, end):
    """k rounds since t0, the last of which took so long: at least two, unless these are slow"""
    return time.time() + spent * 1.2 > (max(end, t0 + 90) if k < 2 else end)


# what is tried exhaustively, or a part of it: family of spec/GenSmall.tla -> (level, how many of its schemas)
SMALL = {
    "quick": {"content": [(1, None), (2, 220), (3, 130)], "attributes": [(1, None), (2, 220)], "text": [(1, None), (2, 80)],
              "values": [(1, None), (2, 80)], "names": [(2, None)], "attnames": [(2, None)], "refs": [(1, 250), (2, 150)], "repeats": [(1, 110), (2, 50), (3, 20)], "attrepeats": [(1, 40), (2, 60)]},
    "thorough": {"content": [(1, None), (2, None), (3, None)], "attributes": [(1, None), (2, None)], "text": [(1, None), (2, None)],
                 "values": [(1, None), (2, None)], "names": [(2, None)], "attnames": [(2, None)], "refs": [(1, None), (2, 9000)], "repeats": [(1, None), (2, 1500), (3, 800)], "attrepeats": [(1, None), (2, 1500)]},
}

# the same for spec/GenGrammar.tla
GRAMMARS = {"quick": {"refs": [(2, 500)], "combine": [(1, 250), (2, 300)], "include": [(1, 450)], "scopes": [(1, 500)], "files": [(2, 450)]},
            "thorough": {"refs": [(2, None)], "combine": [(1, None), (2, None)], "include": [(1, None)], "scopes": [(1, None)], "files": [(2, None)]}}


def tried(rep, wd, r, tier, small_families=(), grammar_families=(), lvl=1):
    """the enumerated families; whether all is well"""
    for mod, fams, parts in ((small, small_families, SMALL), (grammars, grammar_families, GRAMMARS)):
        for fam_ in fams:
            d = os.path.join(wd, "tried_" + fam_)
            os.makedirs(d)
            if mod is small:
                small.run(rep, r, d, fam_, parts[tier][fam_])
            else:
                grammars.run(rep, r, d, fam_, parts[tier][fam_], lvl)
            shutil.rmtree(d, ignore_errors=True)
            if rep.violations:
                return False
    return True


def doccheck(makers, level, small_families=(), **kw):
    def f(rep, wd, r, tier):
        if tried(rep, wd, r, tier, small_families):
            batches(rep, wd, r, tier, makers, **kw)
        return level, COMMON
    return f


def datacheck(types, facets, small, big):
    """every string over a small alphabet up to a length, then random facets and strings"""
    def f(rep, wd, r, tier):
        t0 = time.time()
        os.makedirs(os.path.join(wd, "all"))
        ex = data.cases_exhaustive(types, small if tier == "quick" else big)
        data.run(rep, ex, os.path.join(wd, "all"))
        rep.extra["exhaustive_strings"] = sum(len(k["strs"]) for k in ex)
        k = 0
        while not rep.violations:
            t1 = time.time()
            d = os.path.join(wd, "b%d" % k)
            os.makedirs(d)
            data.run(rep, data.cases_random(r, types, facets, 900), d)
            k += 1
            spent = time.time() - t1
            if time.time() + spent * 1.2 > t0 + (32 if tier == "quick" else 420):
                break
        return "model_checking", COMMON
    return f


def c25(rep, wd, r, tier):
    """what the accessors of compiled datatypes answer"""
    types = dtgen.NUMERIC + dtgen.LENGTH[:2]
    pick = lambda r, t: dtgen.num_facets(r, t) if t in dtgen.NUMERIC else dtgen.str_facets(r, t)
    os.makedirs(os.path.join(wd, "edges"))
    data.run(rep, data.edges(), os.path.join(wd, "edges"), facets=True)

    def one(d, k):
        cs = [c for c in data.cases_random(r, types, pick, 1400) if c["kind"] == "data" and not data.at_edge(c)]
        for c in cs:
            c["strs"] = c["strs"][:8]
        data.run(rep, cs, d, facets=True)
    timed(rep, wd, tier, 30, 240, one)
    return "model_checking", COMMON


def timed(rep, wd, tier, quick_s, thorough_s, one):
    """one(directory, round) again and again for the time given, at least once"""
    t0 = time.time()
    end = t0 + (quick_s if tier == "quick" else thorough_s)
    k = 0
    while True:
        t1 = time.time()
        d = os.path.join(wd, "b%d" % k)
        os.makedirs(d)
        one(d, k)
        shutil.rmtree(d, ignore_errors=True)
        k += 1
        if rep.violations or enough(k, t0, time.time() - t1, end):
            return k


def c10(rep, wd, r, tier):
    lens = concur.SHORT if tier == "quick" else concur.SHORT + [([4, 4, 3], 0), ([2, 2, 2, 2], 0)]
    orders = []
    for n, (l, _) in enumerate(lens):
        d = os.path.join(wd, "gen%d" % n)
        os.makedirs(d)
        orders.append((l, concur.all_schedules(l, d, rep)))
    rep.extra["schedules_from_specification"] = sum(len(s) for _, s in orders)
    timed(rep, wd, tier, 28, 400, lambda d, k: concur.run(rep, d, r, 40, orders))
    return "model_checking", COMMON


def c24(rep, wd, r, tier):
    timed(rep, wd, tier, 28, 420, lambda d, k: long.run(rep, d, r, 110 if tier == "quick" else 150, tier))
    return "model_checking", COMMON


def c22(rep, wd, r, tier):
    exe = base.build_tool()
    timed(rep, wd, tier, 25, 300, lambda d, k: cli.run(rep, d, r, 60, exe))
    return "model_checking", COMMON


def schemacheck(shares, n=800, enumerated=(), **kw):
    """schemas of several files: what compiling them does, and what the compiled schema means"""
    def f(rep, wd, r, tier):
        if tried(rep, wd, r, tier, (), enumerated, kw.get("lvl", 1)):
            timed(rep, wd, tier, 48 if not enumerated else 38, 480, lambda d, k: compose.run(rep, compose.mix(r, k, n, shares, **kw), d))
        return "model_checking", COMMON
    return f


def doc_and_schema(makers, shares, n, docs_s=16, schemas_s=22, small_families=(), enumerated=(), **kw):
    """documents of generated single-file schemas, then schemas of several files and grammars"""
    def f(rep, wd, r, tier):
        k = 1 if tier == "quick" else 16
        os.makedirs(os.path.join(wd, "d"))
        os.makedirs(os.path.join(wd, "s"))
        if not tried(rep, wd, r, tier, small_families, enumerated):
            return "model_checking", COMMON
        batches(rep, os.path.join(wd, "d"), r, tier, makers, quick_s=docs_s, thorough_s=docs_s * k)
        if not rep.violations:
            timed(rep, os.path.join(wd, "s"), tier, schemas_s, schemas_s * k, lambda d, k: compose.run(rep, compose.mix(r, k, n, shares, **kw), d))
        return "model_checking", COMMON
    return f


def c19(rep, wd, r, tier):
    """places of errors: of documents, then of schemas"""
    rich = dict(types=compose.TYPES, facets=compose.facets, width=3)
    shares = two([(5, dict(faults=1)), (2, dict(faults=1, **rich)), (1, dict(faults=2)), (2, dict(edits=1))])

    def one(d, k):
        os.makedirs(os.path.join(d, "docs"))
        docs.run(rep, fam.diagnosed(r, 150), os.path.join(d, "docs"))
        os.makedirs(os.path.join(d, "schemas"))
        compose.run(rep, compose.mix(r, k, 300, shares, lvl=2, nest=1, include=1.5, external=1.3), os.path.join(d, "schemas"), dump=False)
    timed(rep, wd, tier, 32, 480, one)
    return "model_checking", COMMON


def c21(rep, wd, r, tier):
    def one(d, k):
        robust.run(rep, robust.inputs(r, 2000 if tier == "quick" else 5000, "r%d_" % k), d, 60000)
    timed(rep, wd, tier, 26, 480, one)
    return "model_checking", COMMON


def two(shares):
    """two thirds of the schemas in the compact syntax, one third in the XML syntax"""
    return [(2 * w, kw) for w, kw in shares] + [(w, dict(kw, syntax="rng")) for w, kw in shares]


CHECKS = {
    "C11": schemacheck(two([(8, {}), (2, dict(faults=1, kinds=["dup", "mixed"]))]), enumerated=["combine"], combine=4.5, div=2, include=1, external=0.7, nest=0.5, alias=2, ndefs=3, again=0.4),
    "C12": schemacheck(two([(8, {}), (2, dict(faults=1, kinds=["override", "notgrammar", "dup", "cycle"]))]), enumerated=["include"],
                       include=3.3, override=0.8, external=0.5, nest=0.6, div=1.5, combine=1.5, maxfiles=8, ndefs=4),
    "C13": schemacheck(two([(8, {}), (2, dict(faults=1, kinds=["parent", "parent", "nostart", "cycle", "ref", "leak", "leak"]))]), enumerated=["scopes"],
                       nest=2.4, external=3.5, include=0.8, combine=1, maxfiles=8, alias=1),
    "C14": schemacheck(two([(6, dict(faults=1)), (1, dict(faults=1, kinds=["cycle"])), (2, dict(faults=2)), (2, {})]), enumerated=["refs"], lvl=1, nest=1.3, include=1.8, external=1.5),
    "C15": schemacheck([(6, {}), (4, dict(edits=1)), (1, dict(edits=2))], n=800, depth=5,
                       wild=0.3, types=compose.TYPES, facets=compose.facets, ndefs=2, nest=0.3, external=0.3, include=0.4, combine=0.6, div=0.6,
                       alias=0.5, simple=0.6, attp=0.45, width=3,
                       opts=dict(parens=0.22, quote=0.2, split=0.25, notes=0.1, inherit=0.2, extrans=0.25)),
    "C16": schemacheck([(5, dict(syntax="rng")), (2, dict(syntax="rng", edits=1)), (1, dict(syntax="rng", edits=2)), (1, dict(syntax="rng", faults=1)),
                        (2, dict(syntax="both"))], n=700, depth=5,
                       wild=0.3, types=compose.TYPES, facets=compose.facets, ndefs=2, nest=0.6, external=0.6, include=0.7, combine=0.8, div=0.7,
                       attp=0.45, width=3),
    "C23": schemacheck(two([(6, {}), (4, dict(faults=1, kinds=["file", "file", "file", "cycle"]))]), lvl=2, enumerated=["files"],
                       include=3, external=4, again=1, maxfiles=10, inherit=0.1, nest=1),
    "C01": doccheck([(fam.structure, 160)], "model_checking", ["content", "repeats"]),
    "C02": doccheck([(fam.attributes, 140)], "model_checking", ["attributes", "attrepeats"]),
    "C03": doccheck([(fam.namespaces, 140)], "model_checking", ["names", "attnames"]),
    "C04": doccheck([(fam.textual, 140)], "model_checking", ["text", "values"]),
    "C05": doc_and_schema([(fam.references, 140)], two([(6, {}), (3, dict(faults=1, kinds=["ref", "unused", "loop"]))]), 450, small_families=["refs"], enumerated=["refs"],
                          alias=3, nest=1.3, external=0.4, include=0.4, combine=0.5, ndefs=4),
    "C06": doccheck([(fam.entities, 110)], "model_checking"),
    "C07": doccheck([(fam.spellings, 120)], "model_checking"),
    "C08": doccheck([(fam.malformed, 110)], "model_checking"),
    "C09": doccheck([(fam.rejections, 140)], "model_checking", ["content", "attributes"]),
    "C20": doccheck([(lambda r, n: fam.rejections(r, n, lvl=3, uris=["", "urn:a"], wild=0.1), 100),
                     (lambda r, n: fam.rejections(r, n, lvl=3, uris=["", "urn:a"], wild=0.4), 40),
                     (fam.manyheads, 25)], "model_checking"),
    "C10": c10,
    "C24": c24,
    "C19": c19,
    "C21": c21,
    "C22": c22,
    "C25": c25,
    "C17": datacheck(dtgen.NUMERIC + ["xsd:boolean"], dtgen.num_facets, 3, 4),
    "C18": datacheck(dtgen.STRINGLIKE, dtgen.str_facets, 3, 4),
}

NOTES = {}
TECHNIQUE = {}
