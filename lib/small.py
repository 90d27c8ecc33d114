"""All schemas and documents of a small size: enumerated by spec/GenSmall.tla, run through the
implementation, judged by spec/TraceSmall.tla."""
import concurrent.futures, json, os, re
import base, rdoc, schema

FAMILIES = ["content", "attributes", "text", "values", "names", "attnames", "refs", "repeats", "attrepeats"]
NS = {"urn:u": "p"}


def enumerate_(fam, level, wd, rep):
    pp, tp = os.path.join(wd, "patterns%d.ndjson" % level), os.path.join(wd, "trees%d.ndjson" % level)
    base.tlc("GenSmall", wd, {"FAMILY": fam, "LEVEL": level, "PATTERNS": pp, "TREES": tp}, workers=1, heap="4g")
    return [json.loads(l) for l in open(pp)], [json.loads(l) for l in open(tp)], tp


def run(rep, r, wd, fam, parts, deep=True, chunk=1500):
    """parts: (level, so many of its patterns, chosen at random, or None for all)"""
    todo = []
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        made = list(pool.map(lambda p: enumerate_(fam, p[0], wd, rep), parts))
    for (level, limit), (pats, trees, tp) in zip(parts, made):
        todo += [(level, p) for p in (r.sample(pats, limit) if limit and len(pats) > limit else pats)]
        e = rep.extra.setdefault("small_scope", [])
        e.append({"family": fam, "level": level, "schemas": min(limit or len(pats), len(pats)), "of": len(pats), "documents_each": len(trees)})
        # the documents of a family do not depend on the level, except for the length of texts
    for k in range(0, len(todo), chunk):
        judge(rep, todo[k:k + chunk], trees, tp, wd, fam, k, deep)
        if rep.violations:
            return


def defs(p):
    return p if isinstance(p, dict) else {"start": p}


def judge(rep, pats, trees, tp, wd, fam, first, deep):
    docs = [rdoc.render(t["toks"]) for t in trees]
    ds = os.path.join(wd, "docset.json")
    with open(ds, "w") as f:
        json.dump([d[0] for d in docs], f)
    cases = [{"id": "%s%d_%d" % (fam, level, first + i), "syntax": "rnc", "main": "main.rnc", "files": {"main.rnc": schema.to_rnc(defs(p))}, "docset": ds}
             for i, (level, p) in enumerate(pats)]
    res = base.run_cases(cases, wd, 60000)
    starts = [{a: i + 1 for i, (a, b) in enumerate(ranges)} for _, ranges, _ in docs]
    recs = []
    for c, (_, p) in zip(cases, pats):
        x = res[c["id"]]
        if "compile" not in x or not x["compile"]["ok"] or "docs" not in x:
            rep.violation("schema not usable: %s: %s" % (json.dumps(x)[:300], c["files"]["main.rnc"]), {"key": c["files"], "result": x})
            continue
        obs = []
        for n, o in enumerate(x["docs"]):
            if not o:
                obs.append(0)
            elif o[0] != "NotAllowed":
                obs.append(-1)
            else:
                obs.append(starts[n].get(o[1], at(docs[n][1], o[1])))
        recs.append({"id": c["id"], "defs": defs(p), "obs": obs})
    if not recs:
        return
    cp = os.path.join(wd, "small.ndjson")
    base.ndjson(cp, recs)
    t = base.tlc("TraceSmall", wd, {"CASES": cp, "TREES": tp, "DEEP": "1" if deep and fam != "refs" else "0"})
    rep.add_tlc(t)
    by = {c["id"]: c for c in cases}
    seen = set()
    for m in t["marks"]:
        x = re.match(r'<<\s*"@@MISMATCH",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*(.*)>>$', m, re.S)
        if not x:
            raise base.ToolError("unreadable mark " + m)
        if x.group(3).startswith("SPEC"):
            raise base.ToolError("the specification contradicts itself: %s: %s" % (m, by[x.group(1)]["files"]))
        if x.group(1) in seen:
            continue
        seen.add(x.group(1))
        c, j = by[x.group(1)], int(x.group(2)) - 1
        rep.violation("%s: document %r under schema %r; specification: rejected at %s; implementation: %s"
                      % (x.group(3), docs[j][0], c["files"]["main.rnc"], x.group(4), res[c["id"]]["docs"][j] or "accepted"),
                      {"key": {"files": c["files"], "doc": docs[j][0]}, "why": x.group(3), "at": x.group(4), "observed": res[c["id"]]["docs"][j]})
    if not t["undecided"]:
        rep.validated += len(recs) * len(docs)
        if t["distinct"] < 2 * len(recs):
            raise base.ToolError("TLC visited only %d states for %d schemas" % (t["distinct"], len(recs)))


def at(ranges, start):
    for i, (a, b) in enumerate(ranges):
        if a <= start < b or a == b == start:
            return i + 1
    return -2
