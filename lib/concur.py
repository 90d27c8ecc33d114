"""Interleaved validation (C10): schedules from spec/GenConcur.tla and random ones are
replayed in the harness; the recorded answers are judged by spec/TraceConcur.tla, and the
verdicts by spec/TraceDocs.tla."""
import json, os, re
import base, docs, fam, rdoc, schema, spell, cost

SHORT = [([3, 3], 60), ([5, 4], 130), ([2, 2, 2], 99), ([3, 3, 3], 300), ([6, 5], 200)]


def all_schedules(lens, wd, rep):
    p = os.path.join(wd, "lens.json")
    with open(p, "w") as f:
        json.dump(lens, f)
    t = base.tlc("GenConcur", wd, {"LENS": p})
    rep.add_tlc(t)
    out = []
    for m in t["marks"]:
        out.append([int(x) for x in re.findall(r"\d+", m.split('"@@SCHED",')[1])])
    return out


def documents(r, defs, n):
    """documents that would be told apart by what one validator might leave behind: the same
    entities with other values, the same prefixes with other namespaces, faulty ones"""
    out, seen = [], set()
    smp = schema.Sampler(defs, r, uris=["", "urn:a"])
    for _ in range(n * 3):
        t = smp.doc()
        if t is None:
            continue
        if r.random() < 0.4:
            t = schema.mutate(t, r, uris=["", "urn:a"])
        if schema.size(t) > 30 or cost.cost(defs, t, 5000) is None:
            continue
        toks = rdoc.tokens(t, r, r.choice(["root", "mix", "local"]), r.random())
        if r.random() < 0.6:
            toks = spell.respell(toks, r, spell.Opts(refs=0.2, cdata=0.1, inter=0.1, ents=fam.random_ents(r, 0.1)))
        if r.random() < 0.15:
            toks = spell.malform(toks, r) or toks
            toks = spell.merge(toks)
        d = docs.Doc(toks, lvl=1)
        if d.text not in seen:
            seen.add(d.text)
            out.append(d)
        if len(out) >= n:
            break
    return out


def schedule(order, ds):
    """order: 0 creates the next validator, k advances validator k"""
    s, n = [], 0
    for x in order:
        if x == 0:
            s.append([n + 1, ds[n]])
            n += 1
        else:
            s.append(x)
    return s


def random_order(r, lens):
    todo = [0] * len(lens)
    left = {}
    out, k = [], 0
    style = r.random()
    while k < len(lens) or left:
        if k < len(lens) and (not left or r.random() < (0.1 if style < 0.5 else 0.5)):
            k += 1
            out.append(0)
            left[k] = lens[k - 1] + 3          # more requests than there are answers
            continue
        v = r.choice(list(left))
        n = 1 if r.random() < 0.7 else r.randint(1, 10)
        for _ in range(n):
            out.append(v)
            left[v] -= 1
            if left[v] <= 0:
                del left[v]
                break
    return out


def run(rep, wd, r, nschemas, orders):
    jobs = []
    while len(jobs) < nschemas:
        defs = schema.Gen(r, attp=0.4, simple=0.5, depth=2, ndefs=2, uris=["", "urn:a"]).schema()
        ds = documents(r, defs, 5)
        if len(ds) >= 3:
            jobs.append(docs.Job("q%d" % len(jobs), defs, ds))
    # alone: one case, hence one compilation, per document
    solo_cases = [{"id": "%s/%d" % (j.sid, n), "syntax": "rnc", "main": j.main, "files": j.files, "docs": [d.text],
                   "schedule": [[1, 0]] + [1] * (len(d.toks) + 60)} for j in jobs for n, d in enumerate(j.docs)]
    os.makedirs(os.path.join(wd, "solo"))
    solo = base.run_cases(solo_cases, os.path.join(wd, "solo"))
    cases, meta = [], {}
    for j in jobs:
        ans = []
        for n in range(len(j.docs)):
            s = solo["%s/%d" % (j.sid, n)]
            if "runs" not in s:
                rep.violation("schema or document not usable", {"key": {"files": j.files, "doc": j.docs[n].text}, "result": s})
                return
            ans.append(s["runs"]["1"]["steps"])
        # schedules: random ones, and every one from the list
        todo = []
        for _ in range(6):
            k = r.randint(2, 4)
            ds = [r.randrange(len(j.docs)) for _ in range(k)]
            if r.random() < 0.4:
                ds[1] = ds[0]
            todo.append((ds, random_order(r, [len(ans[d]) for d in ds])))
        for lens, scheds in orders:
            # the validator with the longest document gets what is left of its schedule at the end
            ds = [r.randrange(len(j.docs)) for _ in lens]
            for o in r.sample(scheds, min(12, len(scheds))):
                o2, used = [], {}
                for x in o:
                    if x:
                        # stretch: the document's answers are spread evenly over the schedule's steps
                        used[x] = used.get(x, 0) + 1
                        n = len(ans[ds[x - 1]])
                        m = lens[x - 1]
                        o2 += [x] * (n * used[x] // m - n * (used[x] - 1) // m)
                    else:
                        o2.append(0)
                todo.append((ds, o2))
        for i, (ds, o) in enumerate(todo):
            cid = "%s.%d" % (j.sid, i)
            sch = schedule(o, ds)
            cases.append({"id": cid, "syntax": "rnc", "main": j.main, "files": j.files, "docs": [d.text for d in j.docs], "schedule": sch})
            meta[cid] = (j, ds, sch, ans)
    res = base.run_cases(cases, wd)
    lines, drecs, schemas, idx = [], [], [], {}
    sidx = {}
    for j in jobs:
        schemas.append(j.defs)
        sidx[j.sid] = len(schemas)
    for cid, (j, ds, sch, ans) in meta.items():
        rr = res[cid]
        if "runs" not in rr:
            rep.violation("validators side by side crash", {"key": {"files": j.files, "docs": [j.docs[d].text for d in ds], "schedule": sch}, "result": rr})
            continue
        events, pos = [], {}
        for s in sch:
            if isinstance(s, list):
                events.append(["new", s[0], s[1] + 1])
                pos[s[0]] = 0
            else:
                st = rr["runs"][str(s)]["steps"]
                if pos[s] < len(st):
                    events.append(["step", s, json.dumps(st[pos[s]], sort_keys=True)])
                    pos[s] += 1
        lines.append({"id": cid, "solo": [[json.dumps(x, sort_keys=True) for x in a] for a in ans], "events": events})
        for k, d in enumerate(ds):
            dd = j.docs[d]
            did = "%s/%d" % (cid, k)
            o = rr["runs"][str(k + 1)]
            drecs.append({"s": sidx[j.sid], "id": did, "toks": rdoc.spec_tokens(dd.toks), "obs": docs.observe(dd, o), "lvl": 1, "hint": []})
            idx[did] = (cid, dd, o)
    p = os.path.join(wd, "concur.ndjson")
    base.ndjson(p, lines)
    t = base.tlc("TraceConcur", wd, {"CASES": p})
    rep.add_tlc(t)
    done = set()
    for m in t["marks"]:
        x = re.match(r'<<\s*"@@MISMATCH",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)"', m)
        cid = x.group(1)
        if cid in done:
            continue
        done.add(cid)
        j, ds, sch, ans = meta[cid]
        rep.violation("a validator %s: schema %r, documents %r, schedule %r" % (x.group(3), list(j.files.values())[0], [j.docs[d].text for d in ds], sch),
                      {"key": {"files": j.files, "docs": [j.docs[d].text for d in ds], "schedule": sch}, "at": int(x.group(2)), "runs": res[cid]["runs"]})
    sp, dp = os.path.join(wd, "schemas.ndjson"), os.path.join(wd, "docs.ndjson")
    base.ndjson(sp, schemas)
    # the same document with the same observation need be judged once only
    uniq = {}
    for d in drecs:
        uniq.setdefault(json.dumps([d["s"], d["toks"], d["obs"]]), d)
    base.ndjson(dp, list(uniq.values()))
    t = base.tlc("TraceDocs", wd, {"SCHEMAS": sp, "DOCS": dp})
    rep.add_tlc(t)
    for m in t["marks"]:
        x = re.match(r'<<\s*"@@MISMATCH",\s*"([^"]*)",\s*"([^"]*)",\s*(.*)>>$', m, re.S)
        cid, dd, o = idx[x.group(1)]
        j, ds, sch, ans = meta[cid]
        rep.violation("%s, among other validators: document %r under schema %r" % (x.group(2), dd.text, list(j.files.values())[0]),
                      {"key": {"files": j.files, "docs": [j.docs[d].text for d in ds], "schedule": sch}, "spec": x.group(3), "observed": o})
    rep.validated += 0 if t["undecided"] else len(lines) + len(uniq)
    if lines:
        rep.sample({"schema": list(jobs[0].files.values())[0][:200], "events": lines[0]["events"][:8]})
