"""Datatype cases -> harness -> spec/TraceData.tla."""
import json, os, re
import base, schema, dtgen
from rdoc import codes


def escape(s, attr):
    out = []
    for c in s:
        if c in "<&>" or (attr and c in '"\t\n\r') or c == "\r":
            out.append("&#%d;" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def pattern(k):
    if k["kind"] == "value":
        return k["t"] + " " + schema.rnc_lit(k["value"])
    s = k["t"]
    if k["params"]:
        s += " { " + " ".join("%s = %s" % (n, schema.rnc_lit(schema.re_text(v) if n == "pattern" else v)) for n, v in k["params"]) + " }"
    if k["except"]:
        s += " - (" + " | ".join(k["t"] + " " + schema.rnc_lit(v) for v in k["except"]) + ")"
    return s


def source(k):
    return "start = element a { %s }\n" % pattern(k) if not k["attr"] else "start = element a { attribute x { %s } }\n" % pattern(k)


def document(k, s):
    return "<a>%s</a>" % escape(s, False) if not k["attr"] else '<a x="%s"/>' % escape(s, True)


def answer(a):
    return [a, []] if a in ("none", "panic") else ["number", codes(a)]


def said(f, k):
    """what the accessors of the datatype answered; of a decimal with an exclusive bound there is no least or greatest value to
    be told, which is known (known-findings.txt) and looked at in the cases of edges() only"""
    if f is None:
        return []
    ps = [n for n, v in k["params"]] if not k.get("edge") else []
    return [{"bounded": f["bounded"],
             "min": [answer(a) for a in f.get("min", [])] if k["t"] != "xsd:decimal" or "minExclusive" not in ps else [],
             "max": [answer(a) for a in f.get("max", [])] if k["t"] != "xsd:decimal" or "maxExclusive" not in ps else [], "re": f.get("regex") or []}]


def edges():
    """exclusive bounds with no next number in the type"""
    out = []
    for t, (lo, hi) in sorted(dtgen.INTS.items()):
        for n, v in (("minExclusive", hi), ("maxExclusive", lo)):
            if v is not None and t != "xsd:positiveInteger":
                out.append([t, n, str(v)])
    out += [["xsd:decimal", "minExclusive", "0"], ["xsd:decimal", "maxExclusive", "10"]]
    return [{"kind": "data", "t": t, "params": [[n, v]], "value": "", "except": [], "strs": [v], "attr": False, "edge": True} for t, n, v in out]


def at_edge(k):
    """is there a bound as in edges()?"""
    lo, hi = dtgen.INTS.get(k["t"], (None, None))
    return any(n == "minExclusive" and hi is not None and dtgen.value_of(v) == hi or n == "maxExclusive" and lo is not None and dtgen.value_of(v) == lo
               for n, v in k["params"])


def run(rep, cases, wd, timeout=None, facets=False):
    hc = []
    for n, k in enumerate(cases):
        k["id"] = "c%d" % n
        hc.append({"id": k["id"], "syntax": "rnc", "main": "main.rnc", "files": {"main.rnc": source(k)},
                   "docs": [document(k, s) for s in k["strs"]]})
        if facets:
            hc[-1].update(facets=True, probes=k["strs"])
    results = base.run_cases(hc, wd)
    lines = []
    for k in cases:
        r = results[k["id"]]
        comp = r.get("compile")
        if comp is None or comp.get("panic"):
            st = "crash"
        else:
            st = "ok" if comp["ok"] else comp["kind"]
        acc = []
        if st == "ok":
            for d in r["docs"]:
                acc.append("crash" if d.get("panic") else "ok" if d["err"] is None else "no")
        lines.append({"id": k["id"], "kind": k["kind"], "t": k["t"],
                      "params": [[n, v if n == "pattern" else codes(v)] for n, v in k["params"]],
                      "value": codes(k["value"]), "except": [codes(v) for v in k["except"]], "compiled": st,
                      "strs": [codes(s) for s in k["strs"]] if acc else [], "acc": acc, "said": said(r.get("facets"), k) if st == "ok" else []})
    p = os.path.join(wd, "data.ndjson")
    base.ndjson(p, lines)
    t = base.tlc("TraceData", wd, {"CASES": p}, timeout=timeout)
    rep.add_tlc(t)
    byid = {k["id"]: k for k in cases}
    seen = set()
    for m in t["marks"]:
        x = re.match(r'<<\s*"@@MISMATCH",\s*"([^"]*)",\s*"([^"]*)",\s*(\d+)', m, re.S)
        if not x:
            raise base.ToolError("unreadable mark " + m)
        k, j = byid[x.group(1)], int(x.group(3))
        if (x.group(1), x.group(2)) in seen:
            continue
        seen.add((x.group(1), x.group(2)))
        s = k["strs"][j - 1] if j else None
        rep.violation("%s: %r under schema %r" % (x.group(2), s, source(k)),
                      {"key": {"schema": source(k), "string": s, "why": x.group(2)}, "why": x.group(2), "doc": document(k, s) if j else None,
                       "result": results[k["id"]].get("compile")})
    want = sum(2 + len(l["strs"]) for l in lines)
    if not t["undecided"] and (t["distinct"] < len(lines) * 2 or (not t["marks"] and t["distinct"] != want)):
        raise base.ToolError("TLC visited %d states for %d expected" % (t["distinct"], want))
    rep.validated += 0 if t["undecided"] else sum(len(l["strs"]) + 1 for l in lines)
    for k in cases[:2]:
        rep.sample({"schema": source(k), "strings": k["strs"][:6]})


def cases_random(r, types, facets, n):
    out = []
    for i in range(n):
        t = types[i % len(types)]
        k = dtgen.random_case(r, t, facets)
        k["attr"] = r.random() < 0.25
        out.append(k)
    return out


def cases_exhaustive(types, n, chunk=400):
    out = []
    for t in types:
        if t not in dtgen.ALPHABETS:
            continue
        ss = list(dtgen.exhaustive(t, n))
        for i in range(0, len(ss), chunk):
            out.append({"kind": "data", "t": t, "params": [], "value": "", "except": [], "strs": ss[i:i + chunk], "attr": i % 3 == 1})
    return out
