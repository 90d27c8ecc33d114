"""Families of generated cases for the document properties.  Every function takes a
random generator and a number of schemas and returns jobs for docs.run()."""
import rdoc, schema, spell, cost, docs
from rdoc import S, el

URIS3 = ["", "urn:a", "urn:b"]


# names of all kinds: keywords, one a prefix of another, of several scripts, from the ends of the ranges of name characters, long
NAMES = ["A", "aa", "aA", "ab", "start", "element", "text", "empty", "list", "_", "_1", "a-b", "a.b", "a-", "xml-a", "xmlns-a", "\u00e9", "\u00e9t\u00e9", "\u540d\u524d", "\u00c0", "\u00d6",
         "\u00d8\u00f6", "\u00f8\u02ff", "\u0370\u037d", "\u037f\u1fff", "\u200c\u200d", "\u2070\u218f", "\u2c00\u2fef", "\u3001", "\ud7ff", "\uf900\ufdcf", "\ufdf0\ufffd", "\U00010000",
         "\U0001f600b", "\U000effff", "a\u00b7", "a\u0300\u036f", "a\u203f\u2040", "a0123456789", "\u3042" * 14, "\u00e9" * 25, "\U0001f600" * 11, "x" * 39 + "\u3042", "long" * 40]
PREFIXES = ["\u00e9\u00e9", "p\u3042\u3042", "\U0001f600", "\u00c0x", "\u540d\u524d", "xmlp", "xmlnsp", "xm", "x", "ns", "_", "p.q", "p-1", "\u00e9", "\u3042\u3042", "P", "pp", "xmln", "a\u0301", "\U00010000", "element", "inherit"]


def renaming(r, names):
    """other names for some of these names, and for prefixes; different names for different ones"""
    c = r.sample(NAMES, len(NAMES))
    m = {x: c.pop() if r.random() < 0.6 else x for x in names}
    q = r.sample(PREFIXES, len(PREFIXES))
    return m, {p: q.pop() for p in ("p", "q", "r", "s", "t") if r.random() < 0.7}


def rename_defs(p, m):
    if isinstance(p, dict):
        return {k: rename_defs(v, m) for k, v in p.items()}
    if not isinstance(p, list):
        return p
    if len(p) == 3 and p[0] == "name" and isinstance(p[1], str) and isinstance(p[2], str):
        return ["name", p[1], m.get(p[2], p[2])]
    return [rename_defs(x, m) for x in p]


def rename_toks(toks, m, q):
    out = []
    for t in toks:
        if t[0] in ("open", "close", "attr") and len(t) > 2:
            t = [t[0], q.get(t[1], t[1]), m.get(t[2], t[2])] + list(t[3:])
        elif t[0] == "ns":
            t = [t[0], q.get(t[1], t[1])] + list(t[2:])
        out.append(t)
    return out


def build(r, n, prefix, gen=None, sampler=None, ndocs=8, toks=None, lvl=1, good=0.4, limit=15000, mut=None, finish=None,
          times=(1, 1, 2), maxsize=60, accept=None, rename=0.15, maker=None):
    """n schemas with ndocs documents each"""
    jobs = []
    gen, sampler, mut = gen or {}, sampler or {}, mut or {}
    uris = gen.get("uris", [""])
    locs = gen.get("locals", schema.LOCALS)
    atts = gen.get("atts", schema.ATTS)
    i = 0
    while len(jobs) < n:
        i += 1
        defs = maker(r) if maker else schema.Gen(r, **gen).schema()
        if accept and not accept(defs):
            continue
        smp = schema.Sampler(defs, r, uris=uris, locals_=locs, **sampler)
        ds, seen = [], set()
        names = renaming(r, locs + atts) if r.random() < rename else None
        for k in range(ndocs):
            t = smp.doc()
            if t is None:
                t = schema.random_tree(r, uris, locs, atts, 3)
            elif r.random() >= good:
                t = schema.mutate(t, r, uris=uris, locals_=locs, atts=atts, times=r.choice(times), **mut)
            if schema.size(t) > maxsize or cost.cost(defs, t, limit) is None:
                continue
            tk = toks(t, r) if toks else rdoc.tokens(t, r)
            if tk is None:
                continue
            if names:
                tk = rename_toks(tk, *names)
            d = finish(tk, r) if finish else docs.Doc(tk, lvl=lvl)
            if d is None or d.text in seen:
                continue
            seen.add(d.text)
            ds.append(d)
        if ds:
            jobs.append(docs.Job("%s%d" % (prefix, i), rename_defs(defs, names[0]) if names else defs, ds))
    return jobs


# ---- C01 ----------------------------------------------------------------------------------

def structure(r, n):
    """element content: few attributes, hardly any text"""
    out = build(r, n // 2, "st", dict(data=False, attp=0.1, simple=0.25, lists=False, notallowed=0.04, depth=4, width=3),
                ndocs=10, good=0.35)
    # many operators over few names: ambiguous content
    out += build(r, n - n // 2, "am", dict(data=False, attp=0.0, simple=0.4, lists=False, notallowed=0.05, depth=3, locals=["a", "b"],
                                           width=3, ndefs=2), ndocs=12, good=0.3)
    return out


# ---- C02 ----------------------------------------------------------------------------------

def attributes(r, n):
    g = dict(attp=0.85, simple=0.55, depth=2, attwild=0.3, ndefs=2, width=2)
    k = n // 3
    out = build(r, k, "at", dict(g, uris=["", "urn:a"]), ndocs=10, good=0.3, mut=dict(vals=schema.VALS))
    out += build(r, k, "ax", dict(g, atts=["x", "y", "z", "w", "v", "u"], attp=0.92, simple=0.4), ndocs=10, good=0.3)
    # attributes deep in the content they select
    out += build(r, n - 2 * k, "ad", dict(g, attdeep=0.9, simple=0.15, depth=2, attp=0.75, attwild=0.05, data=False, lists=False, ndefs=1, width=3), ndocs=12, good=0.4)
    return out


# ---- C03 ----------------------------------------------------------------------------------

def namespaces(r, n, un=0.12):
    g = dict(uris=URIS3, wild=0.35, attwild=0.4, attp=0.4, simple=0.3, depth=3, data=False, lists=False, locals=["a", "b", "c"], atts=["x", "y"])

    def tk(t, r):
        toks = rdoc.tokens(t, r, r.choice(["root", "mix", "mix", "local"]), r.random())
        if r.random() < un:
            toks = undeclared(toks, r)
        return toks
    return build(r, n, "ns", g, ndocs=10, good=0.45, toks=tk, mut={}, finish=lambda tk, r: docs.Doc(tk, lvl=2), rename=0.4)


def undeclared(toks, r):
    """remove or rename one declaration (prefixes may become undeclared or mean something else)"""
    ns = [i for i, t in enumerate(toks) if t[0] == "ns"]
    if not ns:
        return toks
    i = r.choice(ns)
    toks = [list(t) for t in toks]
    if r.random() < 0.5:
        del toks[i]
    elif r.random() < 0.4:
        toks[i][2] = r.choice(["urn:a", "urn:b", "urn:c"])
    else:
        j = i
        while toks[j][0] != "open":
            j -= 1
        k = j + 1
        own = set()
        while toks[k][0] in ("ns", "attr"):
            if toks[k][0] == "ns" and k != i:
                own.add(toks[k][1])
            k += 1
        c = [p for p in ("p", "q", "r") if p not in own]
        if c:
            toks[i][1] = r.choice(c)
    return toks


# ---- C04 ----------------------------------------------------------------------------------

def textual(r, n):
    vals = ["", " ", "\n ", "a", " a ", "a b", " a  b ", "1", "2", "on", "off", "on off", " on\n2 ", "x", "1 2 x", "a  b", "1 1", "on on on", "A", "\u00e9", "\u3042 b",
            "\u00a0", "on\u00a0on", " \u2003", "1\u3000", "\u0085", "on\u2028", "\u200b", "on \u00a0", "\ufeff", "\u0661", "\uff11"]
    g = dict(attp=0.25, simple=0.75, depth=2, ndefs=2, width=2)

    def tk(t, r):
        toks = rdoc.tokens(t, r)
        if r.random() < 0.4:
            toks = spell.respell(toks, r, spell.Opts(refs=0.1, cdata=0.3, inter=0.15, empties=0.3))
        return toks
    return build(r, n, "tx", g, ndocs=12, good=0.35, toks=tk, mut=dict(vals=vals))


# ---- C05 ----------------------------------------------------------------------------------

def references(r, n):
    g = dict(ndefs=6, depth=2, simple=0.3, data=False, lists=False, attp=0.15, width=2)
    return build(r, n, "rf", g, sampler=dict(maxdepth=12, budget=40), ndocs=9, good=0.45, maxsize=80,
                 accept=lambda d: len(d) >= 4)


# ---- C06 ----------------------------------------------------------------------------------

ENTVALS = ["a", "on", "1", "a b", " ", "x", "2", "off", "", "text", "o", "n", "\u00e9"]


def random_ents(r, bad=0.0):
    names = ["e1", "e2", "foo", "b.r", "_x-1", "\u00e9t", "amp", "lt"]
    out = []
    for _ in range(r.randint(0, 5)):
        n = r.choice(names)
        if n in ("amp", "lt"):
            # a predefined entity may only be declared as what it is
            out.append([n, [["num", 38 if n == "amp" else 60, "&#38;#38;" if n == "amp" else "&#38;#60;"]]])
            continue
        k = r.random()
        if k < 0.6 or not out:
            ps = [S(r.choice(ENTVALS))]
        elif k < 0.9:
            ps = [S(r.choice(ENTVALS)), ["ent", r.choice([x[0] for x in out])], S(r.choice(ENTVALS))]
        else:
            ps = [["num", ord("n"), "&#110;"], S(r.choice(ENTVALS))]
        if r.random() < bad:
            ps.append(r.choice([["ent", "nope"], ["ent", n], ["ent", r.choice(names)]]))
        out.append([n, spell.join(ps)])
    out = [[n, ps] for n, ps in out if n not in ("amp", "lt")]
    for n in [r.choice(names[:-2]) for _ in range(r.choice([0, 0, 1, 2]))]:
        # a parameter entity has nothing to do with the general one of its name
        out.insert(r.randint(0, len(out)), [n, [S(r.choice(ENTVALS + ["<!-- x -->", "&nope;"]))], True])
    return out


BADREFS = ["&foo", "&#;", "&#x;", "&#xZZ;", "&#0;", "&#xD800;", "&#99999999999;", "&#+65;", "&#x110000;", "&#xFFFF;", "&#-1;", "&#1;", "&#x+41;", "&#12a;", "&"]


def reference(r):
    """something between an ampersand and a semicolon"""
    s = r.choice(["amp", "lt", "gt", "quot", "apos", "e1", "foo", "b.r", "_x-1", "\u00e9t", "#65", "#x41", "#x61", "#x1F600", "#128512", "#10", "#xA", "#xd7ff",
                  "#xD800", "#xE000", "#xFFFD", "#x10FFFF", "#x10000", "#1114111", "#0009", "#49", "#50"])
    for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
        i = r.randint(0, len(s))
        c = r.choice("xXxX#0123456789abfABFgG-+._ :\u00e9\u00b7\t\n!")
        k = r.random()
        if k < 0.2:
            s = s.swapcase()
        elif k < 0.5:
            s = s[:i] + s[i + 1:]
        elif k < 0.7:
            s = s[:i] + c + s[i + 1:]
        else:
            s = s[:i] + c + s[i:]
    return ["ref", rdoc.codes(s), s]


def entities(r, n):
    vals = ["", " ", "a", "a b", "1", "2", "on", "off", "<", "&", "a&b", ">", "'", '"', "x", "\u00e9", "\u3042", "\U0001F600", "\t", "\n"]
    g = dict(attp=0.5, simple=0.7, depth=2, ndefs=1, width=2)

    def fin(toks, r):
        o = spell.Opts(refs=r.choice([0.1, 0.4, 0.9]), cdata=r.choice([0, 0, 0.2]), ents=random_ents(r, 0.1) if r.random() < 0.6 else None,
                       inter=0.05)
        t = spell.respell(toks, r, o)
        if r.random() < 0.4:
            t = faulty(t, r)
        elif r.random() < 0.2 and o.ents:
            t = insert_piece(t, r, ["ent", r.choice(o.ents)[0]])
        return docs.Doc(t, lvl=2)
    return build(r, n, "en", g, ndocs=14, good=0.8, mut=dict(vals=vals), finish=fin)


def insert_piece(t, r, p):
    c = [i for i, x in enumerate(t) if x[0] in ("text", "attr")]
    if not c:
        return t
    t = [list(x) for x in t]
    i = r.choice(c)
    k = 1 if t[i][0] == "text" else 3
    ps = []
    for q in t[i][k]:
        if q[0] == "s" and len(q[1]) > 1 and r.random() < 0.5:
            m = r.randint(1, len(q[1]) - 1)
            ps += [["s", q[1][:m]], ["s", q[1][m:]]]
        else:
            ps.append(q)
    j = r.randint(0, len(ps))
    if p[0] == "bad" and not p[1].endswith(";"):
        # unterminated: nothing after it may complete it
        ps = ps[:j] + [p]
    else:
        ps = ps[:j] + [p] + ps[j:]
    t[i][k] = spell.join(ps)
    return t


def faulty(t, r):
    if r.random() < 0.5:
        return insert_piece(t, r, reference(r))
    if r.random() < 0.35:
        return insert_piece(t, r, ["ent", r.choice(["nope", "e1", "Foo", "ltx", "l"])])
    return insert_piece(t, r, ["bad", r.choice(BADREFS)])


# ---- C07 ----------------------------------------------------------------------------------

def spellings(r, n):
    """several spellings of each document"""
    jobs = []
    g = dict(attp=0.4, simple=0.55, depth=3, ndefs=2, uris=["", "urn:a"])
    i = 0
    while len(jobs) < n:
        i += 1
        defs = schema.Gen(r, **g).schema()
        smp = schema.Sampler(defs, r, uris=["", "urn:a"])
        ds = []
        for k in range(3):
            t = smp.doc()
            if t is None:
                continue
            if r.random() < 0.35:
                t = schema.mutate(t, r, uris=["", "urn:a"])
            if schema.size(t) > 50 or cost.cost(defs, t, 15000) is None:
                continue
            for v in range(4):
                toks = rdoc.tokens(t, r, r.choice(["root", "mix", "local"]), r.random())
                o = spell.Opts(refs=r.choice([0, 0.2]), cdata=r.choice([0, 0.4]), inter=r.choice([0, 0.3]), prolog=r.choice([0, 0.5]),
                               empties=r.choice([0, 0.7]), attorder=0.5, ents=random_ents(r) if r.random() < 0.3 else None)
                tk = spell.respell(toks, r, o) if v else toks
                style = rdoc.Style(r, tagws=r.choice([0, 0.4]), quote=0.5) if v else None
                ds.append(docs.Doc(tk, style, lvl=1, tag="%d.%d" % (k, v)))
        if ds:
            jobs.append(docs.Job("sp%d" % i, defs, ds))
    return jobs


# ---- C08 ----------------------------------------------------------------------------------

def malformed(r, n):
    """documents that are cut short or not well formed, under schemas that would take them"""
    g = dict(attp=0.3, simple=0.5, depth=3, ndefs=2)

    def fin(toks, r):
        if r.random() < 0.4:
            toks = spell.respell(toks, r, spell.Opts(cdata=0.2, inter=0.2, prolog=0.3, empties=0.3))
        if r.random() < 0.1:
            return docs.Doc(toks, lvl=1)
        t = spell.malform(toks, r)
        return docs.Doc(spell.merge(t), lvl=1) if t is not None else None
    out = build(r, n, "mf", g, ndocs=14, good=0.9, finish=fin)
    # liberal schemas: only well-formedness can be wrong
    anyd = {"start": ["ref", "any"], "any": ["element", ["anyName", schema.NONE],
            ["zeroOrMore", ["choice", [["attribute", ["anyName", schema.NONE], ["text"]], ["text"], ["ref", "any"]]]]]}
    for j in range(max(1, n // 6)):
        ds = []
        while len(ds) < 14:
            t = schema.random_tree(r, ["", "urn:a"], schema.LOCALS, schema.ATTS, 2)
            if schema.size(t) > 40:
                continue
            d = fin(rdoc.tokens(t, r, r.choice(["root", "mix"])), r)
            if d:
                ds.append(d)
        out.append(docs.Job("any%d" % j, anyd, ds))
    return out


# ---- C09, C20 ------------------------------------------------------------------------------

def satisfiable(defs):
    """every element's content can be completed (no notAllowed, no endless recursion)"""
    s = schema.Sampler(defs, None)
    return all(v < 99 for v in s.depth.values()) and all_ok(s, list(defs.values()))


def all_ok(s, p):
    if not isinstance(p, list):
        return True
    if p and p[0] in ("element", "attribute") and len(p) == 3 and s.md(p[2], s.depth) >= 99:
        return False
    return all(all_ok(s, x) for x in p if isinstance(x, list) and x and isinstance(x[0], (str, list)))


def rejections(r, n, lvl=2, **kw):
    g = dict(attp=0.3, simple=0.35, depth=3, ndefs=3, width=3)
    g.update(kw)
    return build(r, n, "rj", g, ndocs=12, good=0.1, lvl=lvl, times=(1, 1, 1, 2), accept=satisfiable)


HEADS = ["a", "aa", "ab", "b", "b-c", "B", "c", "d", "E", "f", "\u00e9", "x1", "g", "h.h", "_", "z"]


def crowd(r):
    """a schema with an element that has places where many elements may be"""
    names = r.sample(HEADS, len(HEADS))
    uris = r.choice([[""], [""], ["", "urn:a"]])
    defs = {}

    def one():
        u = r.choice(uris)
        if r.random() < 0.12:
            nc = r.choice([["anyName", schema.NONE], ["nsName", "urn:w", schema.NONE], ["alt", schema.name(u, names.pop()), schema.name(u, r.choice(HEADS))]])
        else:
            nc = schema.name(u, names.pop() if r.random() < 0.9 else r.choice(HEADS))
        return ["element", nc, r.choice([["empty"], ["empty"], ["text"], ["choice", [["empty"], ["element", schema.name("", "w"), ["empty"]]]]])]

    def many(k, d):
        if k == 1:
            p = one()
            return r.choice([p, p, ["optional", p], ["zeroOrMore", p], ["oneOrMore", p]])
        op = r.choice(["choice", "choice", "interleave", "group"])
        if d == 0:
            parts = [many(1, 0) for _ in range(k)]
        else:
            a = r.randint(1, k - 1)
            parts = [many(a, d - 1), many(k - a, d - 1)]
        if op == "group":
            parts = [["optional", p] if r.random() < 0.85 else p for p in parts]
        p = [op, parts]
        if r.random() < 0.2:
            p = [r.choice(["zeroOrMore", "oneOrMore", "optional"]), p]
        if r.random() < 0.15:
            n = "D%d" % len(defs)
            defs[n] = p
            p = ["ref", n]
        return p
    body = many(r.randint(5, 12), r.randint(0, 3))
    if r.random() < 0.3:
        body = ["group", [["element", schema.name("", "first"), ["empty"]], body]]
    defs["start"] = ["element", schema.name("", "r"), body]
    return defs


def manyheads(r, n):
    """places where many elements may be"""
    def attempt(r):
        while True:
            try:
                d = crowd(r)
            except IndexError:
                continue
            return d
    return build(r, n, "mh", dict(locals=HEADS, uris=["", "urn:a"]), maker=attempt, ndocs=10, good=0.1, lvl=3, accept=satisfiable, rename=0.1)


# ---- C19 ----------------------------------------------------------------------------------

WIDE = ["<!--\u00e9-->", "<!-- \u3042\u3042\n \U0001F600 -->", "<?p \u00e9\t\u00e9?>", "<!--\n\n-->", "<!-- a\r\n\tb \u00e9 -->"]


def diagnosed(r, n):
    """documents of all kinds whose error has a place, among text that is more bytes than characters"""
    jobs = []
    for f, k in ((structure, 1), (attributes, 1), (namespaces, 1), (lambda r, n: namespaces(r, n, 0.8), 1), (textual, 1), (references, 1), (entities, 2), (malformed, 3), (rejections, 2)):
        made = f(r, max(2, n * k // 12))
        for j in made:
            j.sid += "_%d" % len(jobs)
        jobs += made
    for j in jobs:
        ds = []
        for d in j.docs:
            d.lvl = max(d.lvl, 2)
            if r.random() < 0.6:
                toks = d.toks
                stop = next((i for i, t in enumerate(toks) if t[0] == "bad"), len(toks))
                ok = [i for i, t in enumerate(toks) if t[0] in ("open", "close") and i < stop]
                if not ok:
                    ds.append(d)
                    continue
                for i in sorted(set(r.choice(ok) for _ in range(r.randint(1, 3))), reverse=True):
                    w = r.choice(WIDE)
                    toks = toks[:i] + [["pi" if w[1] == "?" else "comment", w]] + toks[i:]
                d = docs.Doc(toks, rdoc.Style(r, tagws=0.4) if r.random() < 0.5 else None, lvl=d.lvl, tag=d.tag)
            ds.append(d)
        j.docs = ds
    return jobs
