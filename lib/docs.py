"""Validation traces: schemas + documents -> harness -> spec/TraceDocs.tla."""
import json, os, re
import base, rdoc, schema

RANK_NOT_CONTENT = {"decl", "comment", "pi", "doctype"}


class Job:
    """a schema with documents"""
    def __init__(self, sid, defs, docs, rnc=None, files=None, main="main.rnc", syntax="rnc"):
        self.sid, self.defs, self.docs = sid, defs, docs
        self.files = files or {main: rnc if rnc is not None else schema.to_rnc(defs)}
        self.main, self.syntax = main, syntax


class Doc:
    def __init__(self, toks, style=None, lvl=1, tag="", pair=None):
        self.toks, self.lvl, self.tag, self.pair = toks, lvl, tag, pair
        self.text, self.ranges, self.pieces = rdoc.render(toks, style)


def locate(doc, start):
    """token and piece (1-based) containing byte offset start"""
    for i, (a, b) in enumerate(doc.ranges):
        if a <= start < b or (a == b == start):
            for j, (c, d) in enumerate(doc.pieces[i]):
                if c <= start < d:
                    return i + 1, j + 1
            return i + 1, 0
    if start >= (doc.ranges[-1][1] if doc.ranges else 0):
        return len(doc.toks) + 1, 0
    return 0, 0


def shown(doc, r):
    """what the rendered diagnostic shows: is it there; the token and piece where the range begins, the token where it ends,
    the text of the range"""
    d = r.get("diag")
    if d is None:
        return {"dr": "none", "dat": 0, "dsub": 0, "dto": 0, "mark": ""}
    if "panic" in d:
        return {"dr": "panic", "dat": 0, "dsub": 0, "dto": 0, "mark": ""}
    if not d["msgs"] or not d["spans"] or not d["text"] or d["spans"][0]["file"] != "doc.xml":
        return {"dr": "empty", "dat": 0, "dsub": 0, "dto": 0, "mark": ""}
    x = d["spans"][0]
    ls = doc.text.split("\n")

    def byte(l, c):
        if l >= len(ls) or c > len(ls[l]):
            return None
        return len(("\n".join(ls[:l]) + ("\n" if l else "") + ls[l][:c]).encode())
    a, b = byte(x["l1"], x["c1"]), byte(x["l2"], x["c2"])
    if a is None or b is None or b < a:
        return {"dr": "outside", "dat": 0, "dsub": 0, "dto": 0, "mark": ""}
    at, sub = locate(doc, a)
    to, _ = locate(doc, b - 1) if b > a else (at, 0)
    # the place that is named in the text
    m = re.search(r"--> doc\.xml:(\d+):(\d+)\s", ANSI.sub("", d["text"]))
    if not m or (int(m.group(1)), int(m.group(2))) != (x["l1"] + 1, x["c1"] + 1):
        return {"dr": "text says otherwise", "dat": at, "dsub": sub, "dto": to, "mark": ""}
    return {"dr": "ok", "dat": at, "dsub": sub, "dto": to, "mark": doc.text.encode()[a:b].decode("utf-8", "replace")}


ANSI = re.compile("\x1b\\[[0-9;]*m")


def observe(doc, r):
    o = shown(doc, r)
    if r.get("panic"):
        return dict(o, r="crash", at=0, sub=0)
    e = r["err"]
    if e is None:
        return dict(o, r="ok", at=0, sub=0)
    at, sub = (0, 0)
    if "start" in e:
        at, sub = locate(doc, e["start"])
    return dict(o, r=e["kind"], at=at, sub=sub)


HINT = re.compile(r"^Expected Element (.*?)(?: \.\. or one of (\d+) more)?$", re.S)


def hint_of(doc, r):
    """[] or [[descriptions], rest]"""
    e, d = r.get("err"), r.get("diag")
    if not e or e["kind"] != "NotAllowed" or not d or "msgs" not in d or e["tok"] not in ("open", "text", "end", "cdata"):
        return []
    at, _ = locate(doc, e["start"])
    if not (1 <= at <= len(doc.toks)) or doc.toks[at - 1][0] not in ("open", "text", "cdata", "close"):
        return []
    for lvl, m in d["msgs"]:
        if lvl == "Help":
            if m == "Remove this":
                return [[], 0]
            x = HINT.match(m)
            if not x:
                return [["?unreadable hint: " + m], 0]
            return [x.group(1).split(" "), int(x.group(2) or 0)]
    return [["?no hint"], 0]


def run(rep, jobs, wd, limit_ms=20000, timeout=None, expect_compile=True):
    """run everything, record violations in rep; returns (records, results)"""
    cases = []
    for j in jobs:
        cases.append({"id": j.sid, "syntax": j.syntax, "main": j.main, "files": j.files,
                      "docs": [d.text for d in j.docs], "diag": any(d.lvl >= 2 for d in j.docs)})
    results = base.run_cases(cases, wd, limit_ms)
    schemas, docs, idx = [], [], {}
    for j in jobs:
        r = results[j.sid]
        if "compile" not in r or not r["compile"]["ok"]:
            what = "crash" if "compile" not in r else (r["compile"].get("panic") or r["compile"].get("detail"))
            rep.violation("schema not usable (%s)" % (what or r), {"key": j.files, "case": cases_for(j), "result": r})
            continue
        schemas.append(j.defs)
        for n, d in enumerate(j.docs):
            o = r["docs"][n]
            did = "%s/%d" % (j.sid, n)
            idx[did] = (j, d, o)
            docs.append({"s": len(schemas), "id": did, "toks": rdoc.spec_tokens(d.toks), "obs": observe(d, o),
                         "lvl": d.lvl, "hint": hint_of(d, o) if d.lvl >= 3 else []})
    if not docs:
        return docs, results
    sp, dp = os.path.join(wd, "schemas.ndjson"), os.path.join(wd, "docs.ndjson")
    base.ndjson(sp, schemas)
    base.ndjson(dp, docs)
    t = base.tlc("TraceDocs", wd, {"SCHEMAS": sp, "DOCS": dp}, timeout=timeout)
    rep.add_tlc(t)
    bad = set()
    for m in t["marks"]:
        x = re.match(r'<<\s*"@@MISMATCH",\s*"([^"]*)",\s*"([^"]*)",\s*(.*)>>$', m, re.S)
        if not x:
            raise base.ToolError("unreadable mark " + m)
        did = x.group(1)
        if did in bad:
            continue
        bad.add(did)
        j, d, o = idx[did]
        rep.violation("%s: document %r under schema %r; specification: %s; implementation: %s"
                      % (x.group(2), d.text, list(j.files.values())[0], x.group(3)[:300], json.dumps(o.get("err") or o.get("panic") or "accepted")[:300]),
                      {"key": {"files": j.files, "doc": d.text}, "why": x.group(2), "tag": d.tag, "spec": x.group(3), "observed": o})
    rep.validated += 0 if t["undecided"] else len(docs)
    # every trace was followed to its end
    seen = t["distinct"]
    if not t["undecided"] and seen < 2 * len(docs):
        raise base.ToolError("TLC visited only %d states for %d traces" % (seen, len(docs)))
    for did in list(idx)[:3]:
        j, d, o = idx[did]
        rep.sample({"schema": list(j.files.values())[0][:300], "doc": d.text[:300], "observed": observe(d, o)})
    return docs, results


def cases_for(j):
    return {"files": j.files, "main": j.main, "syntax": j.syntax, "docs": [d.text for d in j.docs][:3]}
