"""All small schemas of definitions, includes and grammars: enumerated by spec/GenGrammar.tla,
written in one of the syntaxes, compiled, judged by spec/TraceSchema.tla like those of compose."""
import json, os, random
import base, compose, rnc, xmlsyn
from rnc import File


def enumerate_(fam, level, wd):
    sp = os.path.join(wd, "grammars.ndjson")
    base.tlc("GenGrammar", wd, {"FAMILY": fam, "LEVEL": level, "SCHEMAS": sp}, workers=1)
    return [json.loads(l)["f"] for l in open(sp)]


class Made:
    """what compose.write needs to know of a schema"""
    def __init__(self, r, fs, syntax):
        self.r = r
        files = {f["path"]: File(f["path"] + ".x", None, syntax=syntax) for f in fs}
        for f in fs:
            files[f["path"]].body = self.pat(f["body"], files)
        self.f = files[fs[0]["path"]]
        self.mainpath = self.f.path
        # every place that refers to one file refers to it under the same default namespace
        self.gone = set()

    def to(self, p, files):
        return files.get(p, p + ".x")

    def pat(self, p, files):
        k = p[0]
        if k == "external":
            return ["external", self.to(p[1], files)]
        if k == "grammar":
            return ["grammar", [self.item(d, files) for d in p[1]]]
        if k in ("choice", "group", "interleave"):
            return [k, [self.pat(x, files) for x in p[1]]]
        if k in ("optional", "zeroOrMore", "oneOrMore", "mixed", "list"):
            return [k, self.pat(p[1], files)]
        if k in ("element", "attribute"):
            return [k, p[1], self.pat(p[2], files)]
        if k == "data":
            return [k, p[1], p[2], self.pat(p[3], files)]
        return list(p)

    def item(self, d, files):
        if d[0] == "define":
            return ["define", d[1], d[2], self.pat(d[3], files)]
        if d[0] == "div":
            return ["div", [self.item(x, files) for x in d[1]]]
        return ["include", self.to(d[1], files), [self.item(x, files) for x in d[2]]]


def case(r, cid, fs, syntax, lvl):
    m = Made(r, fs, syntax)
    at = rnc.At()
    if syntax == "rng":
        files = compose.write_xml(m, at, None)
        for f in files:
            xmlsyn.finish(f, r, "mix")
    else:
        files = compose.write(m, at, dict(parens=0.03, inherit=0, extrans=0), "mix")
    return compose.finish(r, m, cid, files, lvl, "small", 5)


def run(rep, r, wd, fam, parts, lvl=1, chunk=3000):
    """parts: (level, so many of its schemas, chosen at random, or None for all)"""
    for level, limit in parts:
        all_ = enumerate_(fam, level, wd)
        some = r.sample(all_, limit) if limit and len(all_) > limit else all_
        rep.extra.setdefault("small_grammars", []).append({"family": fam, "level": level, "schemas": len(some), "of": len(all_)})
        for k in range(0, len(some), chunk):
            cs = [case(r, "%s%d_%d" % (fam, level, k + i), fs, r.choice(["rnc", "rnc", "rng"]), lvl) for i, fs in enumerate(some[k:k + chunk])]
            compose.run(rep, cs, wd)
            if rep.violations:
                return
