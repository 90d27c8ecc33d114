"""The command-line tool (C22): runs of `rng validate', judged by spec/TraceCli.tla."""
import os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import base, docs, fam, rdoc, schema, cost, spell

BREAKS = [lambda s, r: s + "\nstart = \n", lambda s, r: s.replace("{", "(", 1), lambda s, r: "start element a { empty }", lambda s, r: s + '"',
          lambda s, r: 'include "missing.rnc"\n' + s, lambda s, r: s + "\nundefinedhere = element z { q:a }", lambda s, r: ""]


def run(rep, wd, r, n, exe):
    schemas, dl, cases = [], [], []
    while len(schemas) < n:
        defs = schema.Gen(r, attp=0.3, simple=0.5, depth=2, ndefs=2).schema()
        sid = len(schemas) + 1
        d = os.path.join(wd, "s%d" % sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        src = schema.to_rnc(defs)
        broken = False
        k = r.random()
        if k < 0.15:
            src = r.choice(BREAKS)(src, r)
            broken = True
        elif k < 0.3:
            names = [x for x in defs if x != "start"]
            if names:
                gone = r.choice(names)
                defs = {a: b for a, b in defs.items() if a != gone}
                src = schema.to_rnc(defs)
        smp = schema.Sampler(defs, r) if all_defined(defs) else None
        names = []
        for i in range(6):
            t = smp.doc() if smp else schema.random_tree(r, [""], schema.LOCALS, schema.ATTS, 2)
            if t is None:
                continue
            if r.random() < 0.45:
                t = schema.mutate(t, r)
            if smp and (schema.size(t) > 40 or cost.cost(defs, t, 8000) is None):
                continue
            toks = rdoc.tokens(t, r)
            if r.random() < 0.12:
                toks = spell.malform(toks, r) or toks
                toks = spell.merge(toks)
            name = r.choice(["doc%d.xml", "d %d.xml", "sub/doc%d.xml", "sub/x/doc%d.xml", "s b/d %d.xml", "\u00e9%d", "sub/\u00e9%d", "main%d.rnc"]) % r.choice([0, 0, 1, i])
            if name in names:
                continue
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            text = rdoc.render(toks)[0]
            if r.random() < 0.06:
                text, toks = "", []
            data, k = text.encode(), r.random()
            if k < 0.08 and data:
                # not UTF-8
                j = r.randint(0, len(data)) if k < 0.03 else r.choice([m.start() + 1 for m in re.finditer(b">", data)] or [0])
                data = data[:j] + r.choice([b"\xff", b"\x80", b"\xc0\x80", b"\xed\xa0\x80", b"\xc3", b"\xe3\x81", b"\xf5\x80\x80\x80"]) + data[j:]
            readable = utf8(data)
            if r.random() < 0.04:
                readable = False            # not there
            else:
                with open(os.path.join(d, name), "wb") as f:
                    f.write(data)
            dl.append({"s": sid, "name": name, "toks": rdoc.spec_tokens(toks), "readable": readable, "text": data.decode("latin-1") if not readable else text})
            names.append(name)
        if not names:
            continue
        main = r.choice(["main.rnc", "main.rnc", "sub/main.rnc", "sch/main.rnc", "sub/doc0", "s h.rnc"])
        os.makedirs(os.path.dirname(os.path.join(d, main)), exist_ok=True)
        with open(os.path.join(d, main), "w", newline="") as f:
            f.write(src)
        schemas.append(defs)
        for j in range(6):
            m = r.choice([0, 1, 1, 2, 3, 4])
            ds = [r.choice(names) for _ in range(m)]

            def way(f):
                return r.choice([f, f, f, f, "./" + f, os.path.join(d, f), "sub/../" + f if os.path.isdir(d + "/sub") else f])
            cases.append({"s": sid, "broken": broken, "id": "r%d.%d" % (sid, j), "docs": ds, "args": [way(f) for f in ds], "main": main, "schema": way(main), "dir": d, "src": src})

    def go(k):
        try:
            p = subprocess.run([exe, "validate", k["schema"]] + k["args"], cwd=k["dir"], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               stdin=subprocess.DEVNULL, timeout=30, env=base.env())
            return p.returncode, p.stderr.decode("utf-8", "replace") + p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return -999, ""
    with ThreadPoolExecutor(base.NCPU) as ex:
        obs = list(ex.map(go, cases))
    lines = []
    for k, (st, err) in zip(cases, obs):
        # the files that diagnostics point into
        named = set()
        files = dict(zip(k["args"], k["docs"]))
        files[k["schema"]] = k["main"]
        for ln in err.split("\n"):
            x = re.match(r"\s*(?:-->|:::) (.*?):\d+(?::\d+)?$", re.sub("\x1b\\[[0-9;]*m", "", ln))
            if x:
                named.add(files.get(x.group(1), x.group(1)))
        k["status"], k["err"] = st, err
        lines.append({"s": k["s"], "broken": k["broken"], "id": k["id"], "docs": k["docs"], "status": st, "named": sorted(named), "schemafile": k["main"]})
    sp, dp, cp = (os.path.join(wd, x) for x in ("schemas.ndjson", "docs.ndjson", "runs.ndjson"))
    base.ndjson(sp, schemas)
    base.ndjson(dp, [{a: b for a, b in d.items() if a != "text"} for d in dl])
    base.ndjson(cp, lines)
    t = base.tlc("TraceCli", wd, {"SCHEMAS": sp, "DOCS": dp, "CASES": cp})
    rep.add_tlc(t)
    byid = {k["id"]: k for k in cases}
    for m in t["marks"]:
        x = re.match(r'<<\s*"@@MISMATCH",\s*"([^"]*)",\s*"([^"]*)",\s*(.*)>>$', m, re.S)
        k = byid[x.group(1)]
        texts = {d["name"]: d["text"] for d in dl if d["s"] == k["s"]}
        rep.violation("%s (expected status and file: %s): validate %s gave %d; schema %r" % (x.group(2), x.group(3), " ".join([k["schema"]] + k["args"]), k["status"], k["src"]),
                      {"key": {"schema": k["src"], "docs": [[f, texts[f]] for f in k["docs"]], "arguments": [os.path.relpath(a, k["dir"]) if a.startswith("/") else a for a in [k["schema"]] + k["args"]]}, "stderr": k["err"], "status": k["status"]})
    rep.validated += 0 if t["undecided"] else len(lines)
    for k in cases[:3]:
        rep.sample({"arguments": [k["schema"]] + k["args"], "status": k["status"], "stderr": k["err"][:300]})


def utf8(data):
    try:
        data.decode()
        return True
    except UnicodeDecodeError:
        return False


def all_defined(defs):
    def ok(p):
        if isinstance(p, list):
            if len(p) == 2 and p[0] == "ref" and isinstance(p[1], str):
                return p[1] in defs
            return all(ok(x) for x in p)
        return True
    return all(ok(p) for p in defs.values())
