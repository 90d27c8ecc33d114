"""Long and deep documents (C24): generated pieces, replayed with many repetitions, judged
by spec/TraceLong.tla."""
import json, os, re
from collections import Counter
import base, rdoc, schema
from rdoc import el

WIDE = {"quick": [1, 2, 3, 4, 7, 500, 20000], "thorough": [1, 2, 3, 4, 5, 7, 12, 501, 20000, 150000]}
DEEP = {"quick": [1, 2, 3, 4, 7, 60, 3000], "thorough": [1, 2, 3, 4, 5, 7, 12, 61, 1500, 10000]}


def toks_of(kids, r):
    """tokens of a sequence of children (and strings)"""
    t = rdoc.tokens(el("", "w", [], kids), r, "root")
    assert t[0][0] == "open"
    i = 0
    while t[i][0] != "sgt" and t[i][0] != "empty":
        i += 1
    return t[i + 1:-1] if t[i][0] == "sgt" else []


def sample(smp, p):
    smp.left = smp.budget
    try:
        return smp.go(p, smp.maxdepth)
    except schema.TooDeep:
        return None


def tag(local, attrs, r):
    t = rdoc.tokens(el("", local, attrs, []), r, "root")
    i = 0
    while t[i][0] not in ("sgt", "empty"):
        i += 1
    return t[:i] + [["sgt"]]


def damage(kids, r):
    w = schema.mutate(el("", "w", [], kids), r, uris=[""])
    return w["kids"]


def gen(r):
    return schema.Gen(r, attp=0.35, simple=0.5, depth=2, ndefs=2, width=2, notallowed=0.0)


def wide(r):
    g = gen(r)
    base_defs = g.schema()
    g.names = [n for n in base_defs if n != "start"]
    x, y = g.content(1), g.content(0)
    k = r.random()
    star = lambda p: [r.choice(["zeroOrMore", "oneOrMore"]), p]
    if k < 0.35:
        body = ["group", [star(x), y]]
    elif k < 0.5:
        body = ["group", [star(["choice", [x, y]]), y]]
    elif k < 0.62:
        body = ["interleave", [star(x), star(y)]]
    elif k < 0.72:
        body = ["mixed", star(x)]
    elif k < 0.82:
        body = ["group", [star(["group", [x, x]]), ["optional", y]]]
    elif k < 0.92:
        body = star(["interleave", [x, ["optional", y]]])
    else:
        body = ["choice", [star(["group", [x, x]]), ["group", [star(["group", [x, x, x]]), y]]]]
    defs = dict(base_defs)
    defs["start"] = ["element", ["name", "", "r"], body]
    smp = schema.Sampler(defs, r, uris=[""])
    defs = schema.prune(defs)
    u = sample(smp, x)
    t = sample(smp, y)
    if u is None or t is None or u[0] or t[0]:
        return None
    u, t = u[1], t[1]
    if r.random() < 0.15:
        u = damage(u, r)
    if r.random() < 0.15:
        t = damage(t, r)
    if r.random() < 0.1:
        u = u + t
    while u and isinstance(u[-1], str):
        u = u[:-1]
    if not u:
        return None
    if r.random() < 0.2:
        u = ["\n"] + u
    pre = tag("r", [], r) + (toks_of(u, r) if r.random() < 0.15 else [])
    return defs, dict(deep=False, pre=pre, unit=toks_of(u, r), mid=toks_of(t if r.random() < 0.8 else [], r), close=[], post=[["close", "", "r"]])


def deep(r):
    g = gen(r)
    base_defs = g.schema()
    g.names = [n for n in base_defs if n != "start"]
    a, b, y = g.content(0), g.content(0), g.content(0)
    defs = dict(base_defs)
    k = r.random()
    loc = lambda: r.choice(["m", "n"])
    l1, l2 = "m", "n"
    two = r.random() < 0.4
    nxt = ["ref", "rec2"] if two else ["ref", "rec1"]
    att = [["attribute", ["name", "", "x"], ["text"]]] if r.random() < 0.4 else []
    rec = ["choice", [nxt, y]] if k < 0.6 else [r.choice(["optional", "zeroOrMore", "oneOrMore"]), ["choice", [nxt, y]]] if k < 0.8 else ["optional", nxt]
    if r.random() < 0.2:
        rec = ["mixed", rec]
    op = "interleave" if r.random() < 0.15 else "group"
    parts = lambda x, z: [q for q in att + [x, rec, z] if q]
    maybe = lambda p: p if r.random() < 0.5 else ["optional", p] if r.random() < 0.5 else ["empty"]
    a, b = maybe(a), maybe(b)
    defs["rec1"] = ["element", ["name", "", l1], [op, parts(a, b)]]
    if two:
        defs["rec2"] = ["element", ["name", "", l2], ["group", [["ref", "rec1"]] if r.random() < 0.5 else [["choice", [["ref", "rec1"], y]]]]]
    defs["start"] = ["ref", "rec1"]
    smp = schema.Sampler(defs, r, uris=[""])
    defs = schema.prune(defs)
    pa, pb, core = sample(smp, a), sample(smp, b), sample(smp, y)
    if pa is None or pb is None or core is None or pa[0] or pb[0] or core[0]:
        return None
    pa, pb, core = pa[1], pb[1], core[1]
    if r.random() < 0.12:
        pa = damage(pa, r)
    if r.random() < 0.12:
        pb = damage(pb, r)
    if r.random() < 0.12:
        core = damage(core, r)
    ats = [("", "x", "v")] if att and r.random() < 0.93 else []
    open1 = tag(l1, [["", "x", "v"]] if ats else [], r)
    unit = open1 + toks_of(pa, r)
    close = toks_of(pb, r) + [["close", "", l1]]
    if two:
        unit = unit + [["open", "", l2], ["sgt"]]
        close = [["close", "", l2]] + close
    return defs, dict(deep=True, pre=[], unit=unit, mid=toks_of(core, r), close=close, post=[])


def text(ts):
    return rdoc.render(ts)[0]


def run(rep, wd, r, n, tier):
    cases, hc, schemas = [], [], []
    while len(cases) < n:
        isdeep = r.random() < 0.45
        x = deep(r) if isdeep else wide(r)
        if x is None:
            continue
        defs, k = x
        k["id"] = "l%d" % len(cases)
        k["ns"] = (DEEP if isdeep else WIDE)[tier]
        schemas.append(defs)
        k["s"] = len(schemas)
        k["rnc"] = schema.to_rnc(defs)
        pu = [text(k[p]) for p in ("pre", "unit", "mid", "close", "post")]
        k["texts"] = pu
        cases.append(k)
    sp, cp = os.path.join(wd, "schemas.ndjson"), os.path.join(wd, "long.ndjson")
    base.ndjson(sp, schemas)

    def record(k, acc):
        return {"s": k["s"], "id": k["id"], "deep": k["deep"], "ns": k["ns"], "acc": acc,
                **{p: rdoc.spec_tokens(k[p]) for p in ("pre", "unit", "mid", "close", "post")}}
    # those whose runs the specification finds to repeat themselves
    base.ndjson(cp, [record(k, []) for k in cases])
    t = base.tlc("TraceLong", wd, {"SCHEMAS": sp, "CASES": cp})
    rep.add_tlc(t)
    found = set(re.findall(r'"@@PLAN", "([^"]*)"', t["out"]))
    cases = [k for k in cases if k["id"] in found]
    for k in cases:
        pu = k["texts"]
        for m in k["ns"]:
            hc.append({"id": "%s/%d" % (k["id"], m), "syntax": "rnc", "main": "main.rnc", "files": {"main.rnc": k["rnc"]}, "rss": not k["deep"] and m >= 10000,
                       "docs": [[[pu[0], 1], [pu[1], m], [pu[2], 1], [pu[3], m], [pu[4], 1]]]})
    res = base.run_cases(hc, wd, limit_ms=30000)
    lines = []
    for k in cases:
        acc = []
        for m in k["ns"]:
            q = res["%s/%d" % (k["id"], m)]
            if q.get("timeout"):
                acc.append("timeout")
            elif "docs" not in q:
                acc.append("crash")
            else:
                d = q["docs"][0]
                grown = d.get("rss_growth_kb", 0)
                acc.append("crash" if d.get("panic") else "memory" if grown > 3000 else "ok" if d["err"] is None else "no")
        k["acc"] = acc
        lines.append(record(k, acc))
    base.ndjson(cp, lines)
    t = base.tlc("TraceLong", wd, {"SCHEMAS": sp, "CASES": cp})
    rep.add_tlc(t)
    cnt = Counter(re.findall(r'"@@JUDGED", "(\w+)", "(\w+)"', t["out"]))
    for (a, b), v in cnt.items():
        rep.extra["%s_%s_the_lasso" % (a, b)] = rep.extra.get("%s_%s_the_lasso" % (a, b), 0) + v
    rep.validated += 0 if t["undecided"] else sum(cnt.values())
    byid = {k["id"]: k for k in cases}
    for m in t["marks"]:
        x = re.match(r'<<\s*"@@MISMATCH",\s*"([^"]*)",\s*(\d+),\s*(\d+),\s*"([^"]*)"', m)
        if not x:
            continue
        k = byid[x.group(1)]
        rep.violation("%s with %s repetitions: %r under schema %r" % (x.group(4), x.group(2), k["texts"], k["rnc"]),
                      {"key": {"schema": k["rnc"], "pieces": k["texts"], "n": int(x.group(2))}, "pieces": k["texts"], "observed": res["%s/%s" % (k["id"], x.group(2))]})
    for k in cases[:2]:
        rep.sample({"schema": k["rnc"][:300], "pieces": k["texts"], "repetitions": k["ns"], "observed": k["acc"]})
