"""Surface patterns (spec/Rng.tla), their rendering in the compact and the XML
syntax, and random generation of schemas and of documents near them."""
import random
from rdoc import codes, uncodes, el

XSDLIB = "http://www.w3.org/2001/XMLSchema-datatypes"
RNGNS = "http://relaxng.org/ns/structure/1.0"

NONE = ["none"]


def name(ns, local):
    return ["name", ns, local]


# ---- regular expressions of the pattern facet -------------------------------------

def re_text(r):
    k = r[0]
    if k == "eps":
        return "()"
    if k == "ch":
        c = chr(r[1])
        return "\\" + c if c in "\\.*+?()[]{}|^$-" else c
    if k == "dot":
        return "."
    if k == "cls":
        s = "".join(cls_ch(a) if a == b else cls_ch(a) + "-" + cls_ch(b) for a, b in r[1])
        return "[" + ("^" if r[2] else "") + s + "]"
    if k == "cat":
        return "".join("(" + re_text(x) + ")" if x[0] == "alt" else re_text(x) for x in r[1])
    if k == "alt":
        return "|".join(re_text(x) for x in r[1])
    if k == "rep":
        b = re_text(r[1])
        if r[1][0] in ("cat", "alt", "rep", "eps"):
            b = "(" + b + ")"
        lo, hi = r[2], r[3]
        if (lo, hi) == (0, -1):
            return b + "*"
        if (lo, hi) == (1, -1):
            return b + "+"
        if (lo, hi) == (0, 1):
            return b + "?"
        if hi == -1:
            return b + "{%d,}" % lo
        if lo == hi:
            return b + "{%d}" % lo
        return b + "{%d,%d}" % (lo, hi)
    raise ValueError(r)


def cls_ch(c):
    return "\\" + chr(c) if chr(c) in "\\]^-[" else chr(c)


def param_text(p):
    return re_text(p[1]) if p[0] == "pattern" else uncodes(p[1])


# ---- compact syntax ---------------------------------------------------------------

KEYWORDS = {"attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar",
            "include", "inherit", "list", "mixed", "namespace", "notAllowed", "parent", "start",
            "string", "text", "token"}


def rnc_lit(s):
    for q in ('"', "'"):
        if q not in s and "\n" not in s:
            return q + s + q
    for q in ('"""', "'''"):
        if q not in s and not s.endswith(q[0]):
            return q + s + q
    # concatenation
    parts, cur = [], ""
    for c in s:
        if c in "'\n" or c == '"':
            if cur:
                parts.append('"' + cur + '"')
                cur = ""
            parts.append('"' + c + '"' if c == "'" else "'" + c + "'" if c == '"' else '"""' + c + '"""')
        else:
            cur += c
    if cur:
        parts.append('"' + cur + '"')
    return " ~ ".join(parts) or '""'


def ident(n):
    return "\\" + n if n in KEYWORDS else n


class Rnc:
    """renders surface patterns; ns maps URIs to prefixes ('' may map to a prefix for `local')"""
    def __init__(self, ns):
        self.ns = ns

    def nc(self, n, top=True):
        k = n[0]
        if k == "name":
            p = self.ns.get(n[1])
            if p is None or p == "":
                return ident(n[2]) if top else ident(n[2])
            return p + ":" + n[2]
        if k == "nsName":
            p = self.ns[n[1]]
            assert p
            return p + ":*" + ("" if n[2] == NONE else " - " + self.ncp(n[2]))
        if k == "anyName":
            return "*" + ("" if n[1] == NONE else " - " + self.ncp(n[1]))
        if k == "alt":
            return "(" + self.ncp(n[1]) + " | " + self.ncp(n[2]) + ")"
        raise ValueError(n)

    def ncp(self, n):
        return self.nc(n) if n[0] in ("name", "alt") else "(" + self.nc(n) + ")"

    def dt(self, t):
        return t

    def pat(self, p):
        k = p[0]
        if k in ("empty", "notAllowed", "text"):
            return k
        if k in ("choice", "group", "interleave"):
            if len(p[1]) == 1:
                return "(" + self.pat(p[1][0]) + ")"
            op = {"choice": " | ", "group": ", ", "interleave": " & "}[k]
            return "(" + op.join(self.pat(x) for x in p[1]) + ")"
        if k in ("optional", "zeroOrMore", "oneOrMore"):
            b = self.pat(p[1])
            if p[1][0] in ("optional", "zeroOrMore", "oneOrMore", "value"):
                b = "(" + b + ")"
            return b + {"optional": "?", "zeroOrMore": "*", "oneOrMore": "+"}[k]
        if k == "mixed":
            return "mixed { " + self.pat(p[1]) + " }"
        if k == "list":
            return "list { " + self.pat(p[1]) + " }"
        if k in ("element", "attribute"):
            return k + " " + self.nc(p[1]) + " { " + self.pat(p[2]) + " }"
        if k == "ref":
            return ident(p[1])
        if k == "value":
            t = p[1]
            return ("" if t == "token" and getattr(self, "bare", True) else t + " ") + rnc_lit(uncodes(p[2]))
        if k == "data":
            s = p[1]
            if p[2]:
                s += " { " + " ".join(x[0] + " = " + rnc_lit(param_text(x)) for x in p[2]) + " }"
            if p[3] != NONE:
                s = "(" + s + " - (" + self.pat(p[3]) + "))"     # not to be joined by an operator
            return s
        raise ValueError(p)


def uris_in(p, acc):
    if isinstance(p, list):
        if p and p[0] == "name" and len(p) == 3 and isinstance(p[1], str):
            acc.add(p[1])
        elif p and p[0] == "nsName":
            acc.add(p[1])
        for x in p:
            uris_in(x, acc)
    return acc


def has_nsname_empty(p):
    return isinstance(p, list) and ((len(p) == 3 and p[0] == "nsName" and p[1] == "") or any(has_nsname_empty(x) for x in p))


def to_rnc(defs, order=None):
    """a grammar in compact syntax; defs maps names to patterns"""
    us = uris_in(list(defs.values()), set())
    ns, head = {}, []
    for i, u in enumerate(sorted(u for u in us if u)):
        ns[u] = "n%d" % i
        head.append("namespace n%d = %s" % (i, rnc_lit(u)))
    if has_nsname_empty(list(defs.values())):
        head.append('namespace nolocal = ""')
        r = Rnc({**ns, "": "nolocal"})
    else:
        r = Rnc(ns)
    body = [ident2(n) + " = " + r.pat(defs[n]) for n in (order or defs)]
    return "\n".join(head + body) + "\n"


def ident2(n):
    return n if n == "start" else ident(n)


# ---- random schemas ------------------------------------------------------------------

URIS = ["", "urn:a", "urn:b"]
LOCALS = ["a", "b", "c", "d", "e"]
ATTS = ["x", "y", "z", "w"]

TOKVALS = ["1", "2", "on", "off", "a b", "x", "1", "2", "on", "off", "x", "a\nb", "on\n"]


class Gen:
    def __init__(self, rnd, **kw):
        self.r = rnd
        self.o = dict(uris=[""], locals=LOCALS, atts=ATTS, depth=3, wild=0.0, data=True, types=["string", "token"],
                      ndefs=3, attp=0.5, lists=True, mixed=True, notallowed=0.0, width=3, simple=0.35, attwild=0.1, attdeep=0.25,
                      interleave=True, recursion=True, facets=None)
        self.o.update(kw)
        self.names = ["d%d" % i for i in range(self.o["ndefs"])]

    # -- names
    def ename(self):
        r, o = self.r, self.o
        if r.random() < o["wild"]:
            return self.wild(r, o["uris"], o["locals"], 2)
        return name(r.choice(o["uris"]), r.choice(o["locals"]))

    def wild(self, r, uris, locs, depth):
        if r.random() < 0.15:
            x = name(r.choice(uris), r.choice(locs))
            for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
                y = name(r.choice(uris), r.choice(locs))
                x = ["alt", x, y] if r.random() < 0.5 else ["alt", y, x]
            return x
        k = r.random()
        if k < 0.3 and depth > 0:
            return ["alt", self.wild(r, uris, locs, depth - 1), self.wild(r, uris, locs, depth - 1)]
        if k < 0.5:
            return ["anyName", self.exc(r, uris, locs, True) if r.random() < 0.7 else NONE]
        if k < 0.8:
            u = r.choice(uris)
            return ["nsName", u, self.exc(r, [u], locs, False) if r.random() < 0.6 else NONE]
        return name(r.choice(uris), r.choice(locs))

    def exc(self, r, uris, locs, nsok, depth=2):
        k = r.random()
        if nsok and k < 0.4:
            u = r.choice(uris)
            return ["nsName", u, name(u, r.choice(locs)) if r.random() < 0.4 else NONE]
        if k < 0.6 and depth > 0:
            return ["alt", self.exc(r, uris, locs, nsok, depth - 1), self.exc(r, uris, locs, nsok, depth - 1)]
        return name(r.choice(uris), r.choice(locs))

    # -- values
    def value(self):
        r = self.r
        t = r.choice(self.o["types"])
        if t not in ("string", "token", "xsd:string", "xsd:token"):
            t = r.choice(["string", "token"])
        return ["value", t, codes(r.choice(TOKVALS))]

    def params(self, t):
        return []

    def data(self):
        r = self.r
        t = r.choice(self.o["types"])
        ps = self.o["facets"](r, t) if self.o["facets"] and r.random() < 0.4 else []
        exc = NONE
        if r.random() < 0.25:
            exc = self.excepted(2)
            if r.random() < 0.3 and self.o["facets"]:
                exc = ["data", r.choice(self.o["types"]), [], NONE]
        return ["data", t, ps, exc]

    def excepted(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.5:
            return self.value()
        return ["choice", [self.excepted(d - 1) for _ in range(r.choice([2, 2, 3, 4]))]]

    def listitem(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.45:
            return self.value() if r.random() < 0.6 else self.data()
        if k < 0.6:
            return ["group", [self.listitem(d - 1) for _ in range(r.choice([2, 2, 2, 3, 3, 4]))]]
        if k < 0.75:
            return ["choice", [self.listitem(d - 1) for _ in range(r.choice([2, 2, 2, 3, 4]))]]
        if k < 0.8:
            return ["empty"]
        return [r.choice(["optional", "zeroOrMore", "oneOrMore"]), self.listitem(d - 1)]

    def simple(self, d=2):
        """character content"""
        r = self.r
        k = r.random()
        if not self.o["data"] or k < 0.15:
            return ["text"]
        if k < 0.35:
            return self.value()
        if k < 0.55:
            return self.data()
        if k < 0.72 and self.o["lists"]:
            return ["list", self.listitem(2)]
        if k < 0.9 and d > 0:
            return ["choice", [self.simple(d - 1) for _ in range(r.choice([2, 2, 2, 3, 3, 4]))]]
        if d > 0:
            return ["optional", self.simple(d - 1)]
        return ["empty"] if r.random() < 0.3 else self.value()

    # -- attributes of one element: a pattern using each attribute name at most once
    def attributes(self):
        r, o = self.r, self.o
        n = 0
        while n < 3 and r.random() < o["attp"]:
            n += 1
        pool = [(u, a) for u in o["uris"] for a in o["atts"]]
        r.shuffle(pool)
        pool = pool[:6]
        parts = []
        for _ in range(n):
            if not pool:
                break
            parts.append(self.attpart(pool, 2))
        if parts and r.random() < o["attwild"] and pool:
            # everything else, any number
            used = sorted({(u, a) for u in o["uris"] for a in o["atts"]} - set(pool))
            parts.append(["zeroOrMore" if r.random() < 0.7 else "oneOrMore",
                          ["attribute", self.attwildnc(used), ["text"]]])
        return parts

    def attwildnc(self, used):
        r = self.r
        exc = None
        for u, a in used:
            n = name(u, a)
            exc = n if exc is None else ["alt", exc, n]
        if r.random() < 0.5 and exc:
            return ["anyName", exc]
        u = r.choice(self.o["uris"])
        e2 = None
        for uu, a in used:
            if uu == u:
                e2 = name(uu, a) if e2 is None else ["alt", e2, name(uu, a)]
        return ["nsName", u, e2 or NONE]

    def attpart(self, pool, d):
        r = self.r
        k = r.random()
        if k < 0.55 or d == 0 or len(pool) < 2:
            u, a = pool.pop()
            v = self.simple(1) if r.random() < 0.6 else ["text"]
            p = ["attribute", name(u, a), v]
            return ["optional", p] if r.random() < 0.4 else p
        if k < 0.75:
            alts = [self.attpart(pool, d - 1)]
            if pool:
                alts.append(self.attpart(pool, d - 1))
            if r.random() < 0.3:
                alts.append(["empty"])
            return ["choice", alts]
        op = "group" if r.random() < 0.6 or not self.o["interleave"] else "interleave"
        ps = [self.attpart(pool, d - 1)]
        if pool:
            ps.append(self.attpart(pool, d - 1))
        return [op, ps]

    # -- element content
    def element(self, d):
        r, o = self.r, self.o
        atts = self.attributes()
        if r.random() < o["simple"] or d <= 0:
            k = r.random()
            body = ["empty"] if k < 0.35 else self.simple()
        else:
            body = self.content(d - 1)
            if o["mixed"] and r.random() < 0.2:
                body = ["mixed", body]
            elif r.random() < o["notallowed"]:
                body = ["choice", [body, ["notAllowed"]]]
        if atts and r.random() < o["attdeep"]:
            for a in atts:
                body = self.embed(body, a)
        elif atts:
            parts = atts + [body]
            k = r.random()
            if k < 0.7:
                body = ["group", parts]
            elif k < 0.85 and o["interleave"]:
                body = ["interleave", parts]
            elif len(atts) >= 2:
                # attributes decide between alternatives of the content
                alt = self.content(d - 1) if d > 0 else ["empty"]
                body = ["choice", [["group", [atts[0], body]], ["group", [atts[1], alt]]]]
            else:
                body = ["group", [body] + parts[:-1]]
        return ["element", self.ename(), body]

    def embed(self, p, a):
        """the attribute pattern a somewhere within the content pattern p"""
        r = self.r
        if p[0] in ("choice", "group", "interleave") and r.random() < 0.85:
            i = r.randrange(len(p[1]))
            return [p[0], p[1][:i] + [self.embed(p[1][i], a)] + p[1][i + 1:]]
        if p[0] in ("optional", "mixed") and r.random() < 0.7:
            return [p[0], self.embed(p[1], a)]
        ps = [a, p] if r.random() < 0.5 else [p, a]
        return [r.choice(["group", "group", "interleave"]) if self.o["interleave"] else "group", ps]

    def content(self, d):
        """a pattern of child elements"""
        r, o = self.r, self.o
        k = r.random()
        if d <= -1 or k < 0.22:
            return self.leaf(d)
        w = r.randint(2, o["width"])
        if w == o["width"] and r.random() < 0.1:
            # many small ones
            w, d = w + r.randint(1, 2), 0
        if k < 0.4:
            return ["group", [self.content(d - 1) for _ in range(w)]]
        if k < 0.58:
            return ["choice", [self.content(d - 1) for _ in range(w)]]
        if k < 0.68 and o["interleave"]:
            return ["interleave", [self.content(d - 1) for _ in range(w)]]
        if k < 0.71:
            return ["empty"]
        if k < 0.71 + o["notallowed"]:
            return ["notAllowed"]
        if k < 0.97:
            return [r.choice(["optional", "zeroOrMore", "oneOrMore"]), self.content(d - 1)]
        return ["group", [self.content(d - 1)]]

    def leaf(self, d):
        r = self.r
        if self.names and r.random() < 0.5:
            return ["ref", r.choice(self.names)]
        return self.element(d)

    def schema(self):
        """dict of definitions.  Definitions may refer to later ones anywhere, to
        themselves and earlier ones only inside elements."""
        r, o = self.r, self.o
        allnames = list(self.names)
        defs = {}
        root = None
        for i, n in enumerate(allnames):
            # outside elements only later names; inside elements any
            defs[n] = self.toplevel(i, allnames)
        self.names = allnames
        start = ["element", name(r.choice(o["uris"]), r.choice(o["locals"])), None]
        start = self.element(o["depth"])
        if r.random() < 0.15:
            start = ["choice", [start, self.element(1)]]
        elif r.random() < 0.15 and allnames:
            # start through a definition that is an element
            n = r.choice(allnames)
            if defs[n][0] == "element":
                start = ["ref", n]
        out = {"start": start}
        out.update(defs)
        return prune(out)

    def toplevel(self, i, allnames):
        r = self.r
        k = r.random()
        if k < 0.6:
            self.names = allnames if self.o["recursion"] else allnames[i + 1:]
            return self.element(self.o["depth"] - 1)
        self.names = allnames[i + 1:]
        if k < 0.7 and self.names:
            return ["ref", r.choice(self.names)]
        # a content fragment: refs outside elements must be later names, so the
        # elements inside it are restricted as well (simple, and still recursive
        # through the definitions above)
        return self.content(self.o["depth"] - 2)


def refs_of(p, acc):
    if isinstance(p, list):
        if len(p) == 2 and p[0] == "ref" and isinstance(p[1], str):
            acc.add(p[1])
        else:
            for x in p:
                refs_of(x, acc)
    return acc


def prune(defs):
    """only definitions reachable from start"""
    seen, todo = set(), ["start"]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo.extend(refs_of(defs[n], set()))
    return {n: p for n, p in defs.items() if n in seen}


# ---- sampling documents ----------------------------------------------------------------

class TooDeep(Exception):
    pass


GOOD = {
    "string": ["", "a", " a  b ", "1", "x y"], "token": ["", "a", " a  b ", "1", "on"],
    "xsd:string": ["", "a", "ab", "abc", " a "], "xsd:token": ["a", " a  b "],
}


class Sampler:
    """documents matching (by construction, mostly) a set of definitions"""
    def __init__(self, defs, rnd, uris=None, locals_=None, goods=None, maxdepth=6, budget=60, rep=2):
        self.d, self.r = defs, rnd
        self.uris = uris or URIS
        self.locals = locals_ or LOCALS
        self.goods = goods or {}
        self.maxdepth, self.budget, self.rep = maxdepth, budget, rep
        self.depth = self.mindepths()

    def mindepths(self):
        inf = 99
        dd = {n: inf for n in self.d}
        for _ in range(len(self.d) + 2):
            for n, p in self.d.items():
                dd[n] = min(dd[n], self.md(p, dd))
        return dd

    def md(self, p, dd):
        k = p[0]
        if k in ("empty", "text", "value", "data", "list", "attribute", "optional", "zeroOrMore"):
            return 0
        if k == "notAllowed":
            return 99
        if k == "choice":
            return min(self.md(x, dd) for x in p[1])
        if k in ("group", "interleave"):
            return max(self.md(x, dd) for x in p[1])
        if k in ("oneOrMore", "mixed"):
            return self.md(p[1], dd)
        if k == "ref":
            return dd[p[1]]
        if k == "element":
            return min(99, 1 + self.md(p[2], dd))
        raise ValueError(p)

    def doc(self):
        for _ in range(20):
            self.left = self.budget
            try:
                _, kids = self.go(self.d["start"], self.maxdepth)
            except TooDeep:
                continue
            els = [k for k in kids if not isinstance(k, str)]
            if len(els) == 1:
                return els[0]
        return None

    def pickname(self, nc):
        cands = [(u, l) for u in self.uris for l in self.locals if nc_in(nc, u, l)]
        if nc[0] == "name":
            return nc[1], nc[2]
        if not cands:
            raise TooDeep()
        return self.r.choice(cands)

    def go(self, p, depth):
        """(attributes, children)"""
        r = self.r
        k = p[0]
        if k == "empty":
            return [], []
        if k == "notAllowed":
            raise TooDeep()
        if k == "text":
            return [], [r.choice(["", "some text", " ", "t", "1", "x &<y"])]
        if k == "value":
            return [], [uncodes(p[2])]
        if k == "data":
            return [], [self.dataval(p)]
        if k == "list":
            return [], [self.listval(p[1])]
        if k == "ref":
            return self.go(self.d[p[1]], depth)
        if k == "choice":
            ok = [x for x in p[1] if self.md(x, self.depth) <= depth]
            if not ok:
                raise TooDeep()
            if self.left <= 0:
                m = min(self.md(x, self.depth) for x in ok)
                ok = [x for x in ok if self.md(x, self.depth) == m]
            return self.go(r.choice(ok), depth)
        if k == "group":
            a, c = [], []
            for x in p[1]:
                xa, xc = self.go(x, depth)
                a += xa
                c += xc
            return a, c
        if k == "interleave":
            a, seqs = [], []
            for x in p[1]:
                xa, xc = self.go(x, depth)
                a += xa
                seqs.append(xc)
            return a, self.merge(seqs)
        if k == "mixed":
            a, c = self.go(p[1], depth)
            out = []
            for x in c:
                if r.random() < 0.4:
                    out.append("mix")
                out.append(x)
            if r.random() < 0.4:
                out.append("ed")
            return a, out
        if k == "optional":
            if self.left <= 0 or r.random() < 0.4 or self.md(p[1], self.depth) > depth:
                return [], []
            return self.go(p[1], depth)
        if k in ("zeroOrMore", "oneOrMore"):
            lo = 1 if k == "oneOrMore" else 0
            n = lo + (0 if self.left <= 0 or self.md(p[1], self.depth) > depth else r.choice([0, 0, 1, 1, 2, self.rep]))
            a, c = [], []
            for _ in range(n):
                xa, xc = self.go(p[1], depth)
                a += xa
                c += xc
            return a, c
        if k == "attribute":
            u, l = self.pickname(p[1])
            _, v = self.go(p[2], depth)
            return [[u, l, "".join(v)]], []
        if k == "element":
            if depth <= 0:
                raise TooDeep()
            self.left -= 1
            u, l = self.pickname(p[1])
            a, c = self.go(p[2], depth - 1)
            seen, aa = set(), []
            for x in a:
                if (x[0], x[1]) not in seen:
                    seen.add((x[0], x[1]))
                    aa.append(x)
            r.shuffle(aa)
            if any(not isinstance(x, str) for x in c) and r.random() < 0.25:
                i = r.randint(0, len(c))
                c = c[:i] + [r.choice([" ", "\n  "])] + c[i:]
            return [], [el(u, l, aa, merge_texts(c))]
        raise ValueError(p)

    def merge(self, seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            s = self.r.choice(seqs)
            out.append(s.pop(0))
            seqs = [s for s in seqs if s]
        return out

    def dataval(self, p):
        pool = list(self.goods.get(p[1]) or GOOD.get(p[1]) or ["1"])
        if p[2]:
            pool += [uncodes(x[1]) for x in p[2] if x[0] != "pattern"]
        return self.r.choice(pool)

    def listval(self, p):
        _, c = self.go(p, 1)
        words = [w for w in c if w]
        s = self.r.choice([" ", "  ", "\n"]).join(words)
        if self.r.random() < 0.2:
            s = " " + s + " "
        return s


def merge_texts(c):
    out = []
    for x in c:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return out


def nc_in(nc, u, l):
    k = nc[0]
    if k == "name":
        return nc[1] == u and nc[2] == l
    if k == "nsName":
        return nc[1] == u and not nc_in(nc[2], u, l)
    if k == "anyName":
        return not nc_in(nc[1], u, l)
    if k == "alt":
        return nc_in(nc[1], u, l) or nc_in(nc[2], u, l)
    return False


# ---- mutating documents ------------------------------------------------------------------

def all_elements(t, acc=None, parent=None):
    acc = [] if acc is None else acc
    acc.append((t, parent))
    for k in t["kids"]:
        if not isinstance(k, str):
            all_elements(k, acc, t)
    return acc


def clone(t):
    return {"ns": t["ns"], "local": t["local"], "atts": [list(a) for a in t["atts"]],
            "kids": [k if isinstance(k, str) else clone(k) for k in t["kids"]]}


VALS = ["", "1", "2", "on", "off", "x", "a b", " ", "on off", "1 2 x", "zz", "\n", "\u00a0", "on\u3000"]


def mutate(t, r, uris=("",), locals_=LOCALS, atts=ATTS, vals=VALS, times=1):
    t = clone(t)
    for _ in range(times):
        els = all_elements(t)
        e, parent = r.choice(els)
        k = r.randint(0, 13)
        kids = e["kids"]
        eidx = [i for i, x in enumerate(kids) if not isinstance(x, str)]
        if k == 0 and eidx:
            del kids[r.choice(eidx)]
        elif k == 1 and eidx:
            i = r.choice(eidx)
            kids.insert(r.randint(0, len(kids)), clone(kids[i]))
        elif k == 2 and len(eidx) > 1:
            i, j = r.sample(eidx, 2)
            kids[i], kids[j] = kids[j], kids[i]
        elif k == 3 and parent is not None:
            e["local"] = r.choice(list(locals_))
        elif k == 4:
            e["ns"] = r.choice(list(uris))
        elif k == 5 and e["atts"]:
            del e["atts"][r.randrange(len(e["atts"]))]
        elif k == 6:
            n = (r.choice(list(uris)), r.choice(list(atts)))
            if n not in {(a[0], a[1]) for a in e["atts"]}:
                e["atts"].append([n[0], n[1], r.choice(vals)])
        elif k == 7 and e["atts"]:
            r.choice(e["atts"])[2] = r.choice(vals)
        elif k == 8:
            kids.insert(r.randint(0, len(kids)), r.choice(vals))
        elif k == 9 and any(isinstance(x, str) for x in kids):
            i = r.choice([i for i, x in enumerate(kids) if isinstance(x, str)])
            kids[i] = r.choice(vals)
        elif k == 10:
            kids.insert(r.randint(0, len(kids)), el(r.choice(list(uris)), r.choice(list(locals_))))
        elif k == 11 and eidx:
            # splice a child's children in its place
            i = r.choice(eidx)
            e["kids"] = kids[:i] + kids[i]["kids"] + kids[i + 1:]
        elif k == 12 and parent is not None and eidx:
            c = r.choice(els)[0]
            e["kids"] = [x if isinstance(x, str) else clone(x) for x in c["kids"]][:6]
        elif k == 13 and len(e["atts"]) > 1:
            r.shuffle(e["atts"])
        e["kids"] = merge_texts(e["kids"])
    return t


def size(t):
    return 1 + sum(1 if isinstance(k, str) else size(k) for k in t["kids"])


def random_tree(r, uris, locals_, atts, depth, vals=VALS):
    kids = []
    n = r.choice([0, 1, 2, 3]) if depth > 0 else 0
    for _ in range(n):
        if r.random() < 0.8:
            kids.append(random_tree(r, uris, locals_, atts, depth - 1, vals))
        else:
            kids.append(r.choice(vals))
    a, seen = [], set()
    while r.random() < 0.3:
        nm = (r.choice(uris), r.choice(atts))
        if nm not in seen:
            seen.add(nm)
            a.append([nm[0], nm[1], r.choice(vals)])
    return el(r.choice(uris), r.choice(locals_), a, merge_texts(kids))
