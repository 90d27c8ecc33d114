"""Schemas of several files (spec/Compact.tla, Compose.tla, TraceSchema.tla): generation by
taking a grammar apart, faults, and the comparison with what the compiler does."""
import html, copy, json, os, re
import base, dtgen, rnc, schema, xmlsyn
from rdoc import codes, uncodes
from rnc import File, XSD
from schema import NONE

PATHS = ["s/a.rnc", "s/b.rnc", "s/sub/c.rnc", "s/sub/d.rnc", "e.rnc", "o/f.rnc", "o/p/g.rnc", "s/h.rnc", "s/sub/i.rnc", "s/j.rnc", "o/k.rnc", "l.rnc",
         # names that are the same but for the directory
         "s/sub/a.rnc", "o/sub/a.rnc", "o/p/sub/a.rnc", "a.rnc", "o/a.rnc", "sub/d.rnc"]
URIS = ["", "urn:a", "urn:b"]
METHODS = {"choice": "|=", "interleave": "&="}


# ---- walking -------------------------------------------------------------------------------

def kids(p):
    """[(container, index)] of the direct subpatterns of the pattern p"""
    k = p[0]
    if k in ("choice", "group", "interleave"):
        return [(p[1], i) for i in range(len(p[1]))]
    if k in ("optional", "zeroOrMore", "oneOrMore", "mixed", "list"):
        return [(p, 1)]
    if k in ("element", "attribute"):
        return [(p, 2)]
    if k == "data" and p[3] != NONE:
        return [(p, 3)]
    return []


class Slot:
    """a place that holds a pattern"""
    def __init__(self, box, i, ctx, level, gram):
        self.box, self.i, self.ctx, self.level, self.gram = box, i, ctx, level, gram

    @property
    def p(self):
        return self.box[self.i]

    def set(self, p):
        self.box[self.i] = p


def slots_of(box, i, ctx, level, gram, acc, seen):
    p = box[i]
    acc.append(Slot(box, i, ctx, level, gram))
    if p[0] == "grammar":
        slots_in(p[1], level + 1, p[1], acc, seen)
    elif p[0] == "external":
        if isinstance(p[1], File) and id(p[1]) not in seen:
            seen.add(id(p[1]))
            slots_of(BodyBox(p[1]), 0, ctx, level, gram, acc, seen)
    else:
        c = {"attribute": "attribute", "list": "list", "data": "data", "element": "element"}.get(p[0])
        c = c or ctx
        if p[0] in ("attribute", "list", "data") and ctx in ("list", "data"):
            c = ctx
        for b, j in kids(p):
            slots_of(b, j, c, level, gram, acc, seen)


class BodyBox:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return self.f.body

    def __setitem__(self, i, p):
        self.f.body = p


def slots_in(items, level, gram, acc, seen):
    for d in items:
        if d[0] == "define":
            slots_of(d, 3, "top", level, gram, acc, seen)
        elif d[0] == "div":
            slots_in(d[1], level, gram, acc, seen)
        else:
            slots_in(d[2], level, gram, acc, seen)
            if isinstance(d[1], File) and id(d[1]) not in seen:
                seen.add(id(d[1]))
                if d[1].body[0] == "grammar":
                    slots_in(d[1].body[1], level, gram, acc, seen)


def slots(main):
    acc = []
    if main.body[0] == "grammar":
        slots_in(main.body[1], 0, main.body[1], acc, set())
    else:
        slots_of(BodyBox(main), 0, "top", 0, None, acc, set())
    return acc


def files_of(main):
    """the files of the schema, main first"""
    out = []

    def f(x):
        if any(x is y for y in out):
            return
        out.append(x)
        if x.body[0] == "grammar":
            items(x.body[1])
        else:
            pat(x.body)

    def items(ds):
        for d in ds:
            if d[0] == "define":
                pat(d[3])
            elif d[0] == "div":
                items(d[1])
            else:
                if isinstance(d[1], File):
                    f(d[1])
                items(d[2])

    def pat(p):
        if p[0] == "grammar":
            items(p[1])
        elif p[0] == "external":
            if isinstance(p[1], File):
                f(p[1])
        else:
            for b, i in kids(p):
                pat(b[i])
    f(main)
    return out


def item_lists(main):
    """[(items, may contain includes)] everywhere"""
    out = []

    def go(ds, inc):
        out.append((ds, inc))
        for d in ds:
            if d[0] == "div":
                go(d[1], inc)
            elif d[0] == "include":
                go(d[2], False)
    done = []
    for f in files_of(main):
        if f.body[0] == "grammar":
            go(f.body[1], True)
    for s in slots(main):
        if s.p[0] == "grammar":
            go(s.p[1], True)
    res = []
    for x, inc in out:
        if not any(x is y for y, _ in res):
            res.append((x, inc))
    return res


def names_of(items, deep=True, within=()):
    """the names defined by the items; within: the files that these are in"""
    out = []
    for d in items:
        if d[0] == "define":
            out.append(d[1])
        elif d[0] == "div":
            out += names_of(d[1], deep, within)
        elif deep:
            out += names_of(d[2], deep, within)
            f = d[1]
            if isinstance(f, File) and f.body[0] == "grammar" and not any(f is x for x in within):
                out += names_of(f.body[1], deep, within + (f,))
    return list(dict.fromkeys(out))


def methods_of(items, n, out=None, within=()):
    out = [] if out is None else out
    for d in items:
        if d[0] == "define" and d[1] == n:
            out.append(d[2])
        elif d[0] == "div":
            methods_of(d[1], n, out, within)
        elif d[0] == "include":
            methods_of(d[2], n, out, within)
            f = d[1]
            if isinstance(f, File) and f.body[0] == "grammar" and n not in names_of(d[2]) and not any(f is x for x in within):
                methods_of(f.body[1], n, out, within + (f,))
    return out


# ---- taking a grammar apart --------------------------------------------------------------------

class Maker:
    def __init__(self, r, **kw):
        self.r = r
        self.o = dict(uris=URIS, nest=1.0, external=1.5, include=1.5, combine=1.5, div=1.0, wild=0.1, depth=2, ndefs=3,
                      defaults=0.5, inherit=0.3, locals=["a", "b", "c"], types=["string", "token"], again=0.3, override=0.5, maxfiles=6,
                      writer={}, style="mix", alias=0.3, simple=0.4, attp=0.35, facets=None, width=3, xmlns=0.2)
        self.o.update(kw)
        # names of the XML namespace, which needs no declaration
        names = self.o["uris"] + ([rnc.XML] if r.random() < self.o["xmlns"] else [])
        self.paths = list(PATHS)
        r.shuffle(self.paths)
        self.mainpath = r.choice(["s/main.rnc", "s/main.rnc", "main.rnc", "o/main.rnc", "/abs/s/main.rnc"])
        self.gen = schema.Gen(r, uris=names, locals=self.o["locals"], atts=["x", "y"], depth=self.o["depth"], ndefs=self.o["ndefs"],
                              wild=self.o["wild"], attwild=0.05, types=self.o["types"], simple=self.o["simple"], width=self.o["width"],
                              attp=self.o["attp"], facets=self.o["facets"])

    def count(self, x):
        n = int(x)
        return n + (1 if self.r.random() < x - n else 0)

    def path(self):
        p = self.paths.pop() if self.paths else "x%d.rnc" % self.r.randint(0, 9999)
        return "/abs/" + p if self.mainpath.startswith("/") else p

    def file(self, body):
        r = self.r
        return File(self.path(), body, default=r.choice(self.o["uris"]) if r.random() < self.o["defaults"] else None)

    def inh(self):
        return ["uri", self.r.choice(self.o["uris"])] if self.r.random() < self.o["inherit"] else None

    def small(self, names=()):
        """a small pattern"""
        g = self.gen
        g.names = list(names)
        return g.content(0) if self.r.random() < 0.7 else g.element(1)

    def main(self):
        r, o = self.r, self.o
        defs = self.gen.schema()
        items = [["define", n, "=", p] for n, p in defs.items()]
        r.shuffle(items)
        f = File(self.mainpath, ["grammar", items], default=r.choice(o["uris"]) if r.random() < o["defaults"] else None)
        self.f = f
        for _ in range(self.count(o["alias"])):
            self.alias()
        for _ in range(self.count(o["nest"])):
            try:
                self.nest()
            except Skip:
                pass
        for _ in range(self.count(o["combine"])):
            self.combine()
        for _ in range(self.count(o["external"] / 2)):
            self.external()
        for _ in range(self.count(o["div"])):
            self.div()
        for _ in range(self.count(o["include"])):
            self.include()
        for _ in range(self.count(o["external"] / 2)):
            self.external()
        for _ in range(self.count(o["div"] / 2)):
            self.div()
        for _ in range(self.count(o["combine"] / 2)):
            self.combine()
        if r.random() < o["again"]:
            self.again()
        return f

    def alias(self):
        """a new definition for a part of a pattern"""
        s = self.pick(lambda s: s.gram is not None)
        if s:
            n = self.fresh(s.gram)
            s.gram.append(["define", n, "=", s.p])
            s.set(["ref", n])

    def pick(self, ok=lambda s: True):
        c = [s for s in slots(self.f) if ok(s)]
        return self.r.choice(c) if c else None

    def fresh(self, items):
        used = set(names_of(items))
        c = [n for n in ["m", "x", "y", "a.b", "elements", "text", "start1", "div", "\\start", "listing", "d-1", "\u00e9l", "d7", "d8", "d9", "e1", "e2", "e3", "e4", "e5", "e6"] if n not in used]
        return self.r.choice(c[:14]) if c else "f%d" % self.r.randint(0, 99999)

    def nest(self):
        r = self.r
        s = self.pick(lambda s: s.p[0] not in ("grammar",) and (s.ctx not in ("list", "data", "attribute") or r.random() < 0.2))
        if not s or s.gram is None:
            return
        p = s.p
        outer = names_of(s.gram)
        # what p needs from outside
        plain, bridged = [], []
        self.free(p, plain, bridged)
        m, defs, used = {}, [], {"start"}
        pool = list(dict.fromkeys(outer + ["n1", "n2", "d1", "d2", "d3"]))
        pool = [n for n in pool if n != "start"]
        for n in bridged:
            used.add(n)
            defs.append(["define", n, "=", ["parentref", n]])
        for n in plain:
            if n in bridged:
                m[n] = ["ref", n]
            elif r.random() < 0.55:
                m[n] = ["parentref", n]
            else:
                c = [x for x in pool if x not in used]
                k = n if n not in used and r.random() < 0.3 else (r.choice(c) if c else "z%d" % len(used))
                used.add(k)
                m[n] = ["ref", k]
                defs.append(["define", k, "=", ["parentref", n]])
        q = self.subst(p, m)
        defs.append(["define", "start", "=", q])
        # some that have nothing to do with it
        c = [x for x in pool if x not in used]
        for k in c[:r.choice([0, 0, 1])]:
            defs.append(["define", k, "=", self.small()])
        r.shuffle(defs)
        s.set(["grammar", defs])

    def free(self, p, plain, bridged):
        k = p[0]
        if k == "ref":
            if p[1] not in plain:
                plain.append(p[1])
        elif k == "parentref":
            raise Skip()
        elif k == "grammar":
            for s in slots(File("", p)):
                if s.level == 0 and s.p[0] == "parentref" and s.p[1] not in bridged:
                    bridged.append(s.p[1])
        elif k == "external":
            f = p[1]
            if isinstance(f, File):
                raise Skip()
        else:
            for b, i in kids(p):
                self.free(b[i], plain, bridged)

    def subst(self, p, m):
        if p[0] == "ref":
            return list(m[p[1]])
        if p[0] == "grammar":
            return p
        q = copy.copy(p)
        if p[0] in ("choice", "group", "interleave"):
            return [p[0], [self.subst(x, m) for x in p[1]]]
        for b, i in kids(q):
            b[i] = self.subst(b[i], m)
        return q

    def combine(self):
        """split a definition, or add to one"""
        r = self.r
        c = []
        for items, inc in item_lists(self.f):
            for i, d in enumerate(items):
                if d[0] == "define":
                    c.append((items, i, d))
        if not c:
            return
        split = [x for x in c if x[2][3][0] in METHODS and len(x[2][3][1]) >= 2 and x[2][2] in ("=", METHODS[x[2][3][0]])]
        if split and r.random() < 0.75:
            items, i, d = r.choice(split)
            if self.others(items, d) and d[2] == "=":
                return
            op = d[3][0]
            m = METHODS[op]
            ps = list(d[3][1])
            if r.random() < 0.5:
                r.shuffle(ps)
            k = r.randint(1, len(ps) - 1)
            parts = [ps[:k], ps[k:]]
            if len(parts[1]) > 1 and r.random() < 0.5:
                parts[1:] = [parts[1][:1], parts[1][1:]]
            new = [["define", d[1], m, x[0] if len(x) == 1 else [op, x]] for x in parts]
            if d[2] == "=" and r.random() < 0.5:
                r.choice(new)[2] = "="
            items[i] = new[0]
            for x in new[1:]:
                items.insert(r.randint(0, len(items)), x)
            return
        items, i, d = r.choice(c)
        ms = self.others(items, d) + [d[2]]
        have = [x for x in ms if x != "="]
        m = have[0] if have else r.choice(["|=", "|=", "&="])
        q = r.choice([self.small, self.small, lambda: ["notAllowed"], lambda: ["empty"], lambda: ["choice", [self.small(), self.small()]],
                      lambda: ["interleave", [self.small(), self.small()]]])()
        items.insert(r.randint(0, len(items)), ["define", d[1], m, q])
        if d[2] == "=" and r.random() < 0.3:
            d[2] = m

    def others(self, items, d):
        """methods of the other definitions of the same name, anywhere"""
        out = []
        for its, _ in item_lists(self.f):
            for x in its:
                if x[0] == "define" and x[1] == d[1] and x is not d:
                    out.append(x[2])
        return out

    def div(self):
        r = self.r
        c = [x for x, _ in item_lists(self.f) if x]
        if not c:
            return
        items = r.choice(c)
        i = r.randint(0, len(items))
        j = r.randint(i, min(len(items), i + 3))
        items[i:j] = [["div", items[i:j]]]

    def include(self):
        r, o = self.r, self.o
        if len(files_of(self.f)) >= o["maxfiles"]:
            return
        c = [x for x, inc in item_lists(self.f) if inc and len(x) >= 2]
        if not c:
            return
        items = r.choice(c)
        n = r.randint(1, max(1, len(items) - (1 if r.random() < 0.8 else 0)))
        moved = r.sample(range(len(items)), min(n, len(items)))
        body = [items[i] for i in sorted(moved)]
        if r.random() < 0.3:
            r.shuffle(body)
        rest = [d for i, d in enumerate(items) if i not in moved]
        over = []
        f = self.file(["grammar", body])
        ns = names_of(body)
        if r.random() < o["override"] and ns:
            for n in r.sample(ns, len(ns) if r.random() < 0.2 else r.randint(1, min(2, len(ns)))):
                self.override(n, body, over)
            if over and r.random() < 0.3:
                i = r.randrange(len(over))
                over[i:i + 1] = [["div", [over[i]]]]
        rest.insert(r.randint(0, len(rest)), ["include", f, over, self.inh()])
        items[:] = rest

    def override(self, n, body, over):
        """take the definitions of n that are right in body out into over, and leave others there"""
        r = self.r
        mine = [d for d in body if d[0] == "define" and d[1] == n]
        if mine:
            for d in mine:
                i = body.index(d)
                body[i] = ["define", n, d[2], self.junk()]
                over.append(list(d))
                if r.random() < 0.2:
                    body[i][2] = r.choice(["=", "|=", "&="])
        else:
            ms = methods_of(body, n)
            over.append(["define", n, "=" if "=" in ms else (ms or ["="])[0], self.small()])

    def junk(self):
        r = self.r
        return r.choice([self.small(), ["notAllowed"], ["empty"], ["text"], ["element", schema.name("", "junk"), ["empty"]]])

    def external(self):
        r = self.r
        if len(files_of(self.f)) >= self.o["maxfiles"]:
            return
        s = self.pick(lambda s: s.p[0] not in ("external",))
        if not s:
            return
        f = self.file(s.p)
        s.set(["external", f, self.inh()])

    def again(self):
        """another reference to a file"""
        r = self.r
        ex = [s for s in slots(self.f) if s.p[0] == "external" and isinstance(s.p[1], File)]
        if ex and r.random() < 0.7:
            s = r.choice(ex)
            f = s.p[1]
            to = [t for t in slots(self.f) if t.gram is s.gram and t.ctx in ("top", "element") and t.p is not s.p and not self.within(t, f)]
            if to:
                t = r.choice(to)
                t.set(["choice", [t.p, ["external", f, self.inh()]]])
            return
        inc = []
        for items, ok in item_lists(self.f):
            for d in items:
                if d[0] == "include" and isinstance(d[1], File) and d[1].body[0] == "grammar":
                    inc.append((items, d[1]))
        if inc:
            items, f = r.choice(inc)
            over = []
            for n in names_of(f.body[1]):
                ms = methods_of(f.body[1], n)
                if "=" in ms or r.random() < 0.2:
                    every = [m for its, _ in item_lists(self.f) for d in its if d[0] == "define" and d[1] == n for m in [d[2]]]
                    m = "&=" if "&=" in every else "|="
                    over.append(["define", n, m, self.small()])
            items.insert(r.randint(0, len(items)), ["include", f, over, self.inh()])

    def within(self, t, f):
        """is the slot t inside the file f?"""
        return any(s.p is t.p for s in slots(f))


class Skip(Exception):
    pass


# ---- faults ----------------------------------------------------------------------------------

def elementish(s):
    return s.ctx in ("top", "element")


def fault(m, kind=None):
    """put something wrong into the schema of the Maker m"""
    r, f = m.r, m.f
    kind = kind or r.choice(FAULTS)
    ss = slots(f)

    def pick(ok=lambda s: True):
        c = [s for s in ss if ok(s)]
        if not c:
            raise Skip()
        return r.choice(c)

    def lists(inc=False):
        c = [x for x, i in item_lists(f) if i or not inc]
        if not c:
            raise Skip()
        return r.choice(c)

    def beside(p, q):
        return [r.choice(["choice", "group", "interleave"]), r.choice([[p, q], [q, p]])]

    def deep(q, data=False, elements=True):
        """q within other patterns"""
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            v = ["value", "token", codes(r.choice("xyz"))]
            k = r.choice(["choice", "choice", "data"] if data else
                         ["choice", "optional", "oneOrMore", "zeroOrMore", "group", "interleave", "mixed", "list", "attribute", "data", "data", "external", "external"]
                         + ["element"] * elements)
            if k in ("choice", "group", "interleave"):
                q = [k, r.choice([[v, q], [q, v], [v, q, v]])]
            elif k == "external":
                q = [k, m.file(q), m.inh()]
            elif k == "data":
                q = ["data", r.choice(["token", "string", "xsd:string"]), [], ["choice", r.choice([[v, q], [q, v]])] if r.random() < 0.6 else q]
            elif k in ("attribute", "element"):
                q = [k, schema.name("", "q"), q]
            else:
                q = [k, q]
        return q
    if kind == "ref":
        s = pick(lambda s: s.p[0] == "ref") if r.random() < 0.5 else pick()
        q = deep(["ref", "nowhere"], s.ctx == "data")
        s.set(q if s.p[0] == "ref" or s.ctx == "data" else beside(s.p, q))
    elif kind == "parent":
        s = pick()
        q = deep(["parentref", r.choice(["nowhere", "d0", "d1", "start1"])], s.ctx == "data")
        s.set(q if s.ctx == "data" else beside(s.p, q))
    elif kind == "unused":
        d = lists()
        d.insert(r.randint(0, len(d)), ["define", "unused", "=", r.choice([["ref", "nowhere"], ["element", schema.name("", "q"), ["ref", "nowhere"]],
                 ["element", ["bad", "nope", "x"], ["empty"]], ["data", "xsd:nothing", [], NONE], ["grammar", [["define", "start", "=", ["ref", "unused"]]]]])])
    elif kind == "prefix":
        s = pick(lambda s: s.p[0] in ("element", "attribute"))
        n = s.p[1]
        w = r.choice(["nope", "nope", "AA\u3042\u3042\u3042\u3042\u3042\u3042", "n\u00e9"])
        b = r.choice([["bad", w, "x"], ["badns", w]])
        k = r.random()
        if k < 0.5:
            s.p[1] = b
        elif k < 0.75:
            s.p[1] = ["alt", n, b] if r.random() < 0.5 else ["alt", b, n]
        else:
            s.p[1] = ["anyName", b if b[0] == "bad" else ["alt", n, b]]
    elif kind == "dtprefix":
        s = pick(lambda s: s.ctx in ("attribute", "list", "data")) if r.random() < 0.5 else pick(elementish)
        q = ["data", "nope:thing", [], NONE] if r.random() < 0.6 else ["value", "nope:thing", codes("1")]
        q = deep(q, s.ctx == "data")
        s.set(q if s.ctx == "data" else beside(s.p, q))
    elif kind == "type":
        s = pick(lambda s: s.ctx in ("attribute", "list", "data")) if r.random() < 0.5 else pick(elementish)
        t = r.choice(["xsd:nothing", "lib urn:lib thing", "xsd:Token", "lib urn:lib string"])
        q = ["data", t, [], NONE] if r.random() < 0.6 else ["value", t, codes("1")]
        q = deep(q, s.ctx == "data")
        s.set(q if s.ctx == "data" else beside(s.p, q))
    elif kind == "facet":
        s = pick(lambda s: s.ctx in ("attribute", "list", "data")) if r.random() < 0.5 else pick(elementish)
        t, ps = r.choice([("xsd:string", [["bogus", codes("1")]]), ("string", [["length", codes("1")]]), ("token", [["minLength", codes("1")]]),
                          ("xsd:integer", [["maxInclusive", codes("z")]]), ("xsd:integer", [["length", codes("1")]]),
                          ("xsd:string", [["minLength", codes("3")], ["maxLength", codes("2")]]),
                          ("xsd:string", [["minLength", codes("-1")]]), ("xsd:boolean", [["minInclusive", codes("0")]])])
        q = deep(["data", t, ps, NONE], s.ctx == "data")
        s.set(q if s.ctx == "data" else beside(s.p, q))
    elif kind == "loop":
        s = pick(lambda s: s.level == 0 and s.ctx == "top")
        ns = [n for n in names_of(f.body[1]) if n != "start"]
        if not ns:
            raise Skip()
        s.set(beside(s.p, deep(["ref", r.choice(ns)], elements=False)))
    elif kind == "nostart":
        x = [(its, d) for its, _ in item_lists(f) for d in its if d[0] == "define" and d[1] == "start"]
        if not x:
            raise Skip()
        its, d = r.choice(x)
        if r.random() < 0.5:
            d[1] = r.choice(["\\start", "Start", "start1"])
        else:
            its.remove(d)
    elif kind == "file":
        fs = files_of(f)[1:]
        if not fs or r.random() < 0.4:
            if r.random() < 0.5:
                d = lists(True)
                d.insert(r.randint(0, len(d)), ["include", File("gone/x.rnc", ["empty"]), [], m.inh()])
            else:
                pick().set(["external", File("s/gone.rnc", ["empty"]), m.inh()])
            m.gone = {"gone/x.rnc", "s/gone.rnc"}
        else:
            m.gone = {r.choice(fs).path}
    elif kind == "elatt":
        s = pick(lambda s: s.p[0] == "attribute" and s.ctx not in ("list", "data"))
        e = ["element", schema.name("", "q"), ["empty"]]
        for _ in range(r.choice([0, 0, 1, 2])):
            e = ["external", m.file(r.choice([e, ["optional", e], ["choice", [["empty"], e]]])), m.inh()]
        s.p[2] = r.choice([e, beside(s.p[2], e), ["group", [s.p[2], ["optional", e]]], ["list", e] if r.random() < 0.1 else ["zeroOrMore", e]])
    elif kind == "cycle" and r.random() < 0.5:
        # a chain of files, the last of which leads back to any of them or of the others
        chain = []
        includes = r.random() < 0.4         # nothing but includes
        for _ in range(r.randint(1, 4)):
            chain.append(m.file(["grammar", []] if includes or r.random() < 0.7 else ["empty"]))
        back = r.choice(files_of(f) + chain * 2)
        s, d = pick(), lists(True)
        for x, to in zip(chain, chain[1:] + [back]):
            ex = ["external", to, m.inh()]
            if x.body[0] != "grammar":
                x.body = r.choice([ex, ["optional", ex], ["group", [["element", schema.name("", "q"), ["empty"]], ex]]])
            elif to.body[0] == "grammar" and (includes or r.random() < 0.75):
                x.body[1].append(["include", to, [], m.inh()])
            else:
                x.body[1].append(["define", "loopy", "|=", ex])
        if chain[0].body[0] == "grammar" and (includes or r.random() < 0.7):
            d.insert(r.randint(0, len(d)), ["include", chain[0], [], m.inh()])
        else:
            if chain[0].body[0] == "grammar":
                chain[0].body[1].append(["define", "start", "|=", ["empty"]])
            q = ["external", chain[0], m.inh()]
            s.set(q if s.ctx == "data" else beside(s.p, q))
    elif kind == "cycle":
        s = pick()
        q = ["external", r.choice(files_of(f)), m.inh()]
        if r.random() < 0.5:
            d = lists(True)
            d.insert(r.randint(0, len(d)), ["include", r.choice(files_of(f)), [], m.inh()])
        else:
            s.set(q if s.ctx == "data" else beside(s.p, q))
    elif kind == "dup":
        d = lists()
        x = [y for y in d if y[0] == "define"]
        if not x:
            raise Skip()
        d.insert(r.randint(0, len(d)), ["define", r.choice(x)[1], "=", m.small()])
    elif kind == "mixed":
        d = lists()
        x = [y for y in d if y[0] == "define"]
        if not x:
            raise Skip()
        n = r.choice(x)[1]
        for k in ("|=", "&="):
            d2 = d if r.random() < 0.7 else lists()
            d2.insert(r.randint(0, len(d2)), ["define", n, k, m.small()])
    elif kind == "override":
        x = [d for its, _ in item_lists(f) for d in its if d[0] == "include"]
        if not x:
            raise Skip()
        d = r.choice(x)
        if r.random() < 0.4 and isinstance(d[1], File) and d[1].body[0] == "grammar":
            # besides overrides of what there is
            body = d[1].body[1]
            for n in names_of(body):
                if n not in names_of(d[2]):
                    m.override(n, body, d[2])
        q = ["define", r.choice(["nowhere", "d0", "d1", "start"]), r.choice(["=", "|="]), m.small()]
        d[2].insert(r.randint(0, len(d[2])), q if r.random() < 0.7 else ["div", [q]])
    elif kind == "notgrammar":
        x = [d for its, _ in item_lists(f) for d in its if d[0] == "include" and isinstance(d[1], File)]
        if x and r.random() < 0.5:
            r.choice(x)[1].body = m.small()
        else:
            d = lists(True)
            d.insert(r.randint(0, len(d)), ["include", m.file(m.small()), [], m.inh()])
    elif kind == "inherit":
        x = [d for its, _ in item_lists(f) for d in its if d[0] == "include"]
        y = [s.p for s in ss if s.p[0] == "external"]
        if not x + y:
            raise Skip()
        z = r.choice(x + y)
        i = 3 if z[0] == "include" else 2
        z[i:] = [["bad", "nope"]]
    elif kind == "leak":
        # a prefix that only other files declare
        s = pick(lambda s: s.p[0] in ("element", "attribute"))
        s.p[1] = r.choice([["bad", "nope", "x"], ["bad", "nope", "x"], ["badns", "nope"], ["alt", s.p[1], ["bad", "nope", "x"]]])
        fs = files_of(f)
        for g in [g for g in fs if r.random() < 0.6] or fs[:1]:
            g.declares = ["nope", r.choice(["urn:a", "urn:b"])]
    elif kind == "dtclash":
        r.choice(files_of(f)).clash = r.choice(["same", "xsd"])
    return kind


def odd_names(r, main):
    """other names for elements, attributes and definitions, the same everywhere"""
    import fam
    from_ = {}
    pool = r.sample(fam.NAMES, len(fam.NAMES))
    dpool = [n for n in r.sample(fam.NAMES, len(fam.NAMES)) if n != "start"]

    def new(key, s, ps):
        if key not in from_:
            from_[key] = ps.pop() if ps and r.random() < 0.6 else s
            if from_[key] == s and s in ps:
                ps.remove(s)
        return from_[key]

    def pat(p, seen):
        if id(p) in seen:
            return
        seen.add(id(p))
        if p[0] in ("element", "attribute"):
            nc_once(p[1], seen)
        elif p[0] in ("ref", "parentref"):
            p[1] = deft(p[1])
        elif p[0] == "grammar":
            items(p[1], seen)
        if p[0] != "grammar":
            for b, i in kids(p):
                pat(b[i], seen)

    def nc_once(n, seen):
        if id(n) not in seen:
            seen.add(id(n))
            if n[0] == "name":
                n[2] = new(("n", n[2]), n[2], pool)
            for x in n[1:]:
                if isinstance(x, list):
                    nc_once(x, seen)

    def deft(s):
        return s if s in ("start", "\\start") else new(("d", s), s, dpool)

    def items(ds, seen):
        for d in ds:
            if id(d) in seen:
                continue
            seen.add(id(d))
            if d[0] == "define":
                d[1] = deft(d[1])
                pat(d[3], seen)
            elif d[0] == "div":
                items(d[1], seen)
            else:
                items(d[2], seen)
    seen = set()
    for f in files_of(main):
        pat(f.body, seen)
    return seen


FAULTS = ["ref", "parent", "unused", "prefix", "dtprefix", "type", "facet", "loop", "nostart", "file", "elatt", "cycle", "dup", "mixed",
          "override", "notgrammar", "inherit", "dtclash", "leak"]


# ---- cases -------------------------------------------------------------------------------------

class Case:
    """files: File objects with toks, text and ranges; or anything that has path, syntax, toks, text, ranges"""
    def __init__(self, cid, files, main, names=(), atts=(), probes=("",), depth=5, lvl=1, tag="", gone=()):
        self.id, self.files, self.main, self.lvl, self.tag = cid, files, main, lvl, tag
        self.names, self.atts, self.depth = list(names), list(atts), depth
        ps = [""]
        for p in probes:
            for x in [p] + p.split():
                if x not in ps:
                    ps.append(x)
        self.probes = ps
        self.gone = set(gone)
        self.syntax = files[0].syntax
        self.twin = None                # the same schema in the other syntax

    def texts(self):
        return {f.path: f.text for f in self.files if f.path not in self.gone}

    def key(self):
        return {"files": self.texts(), "main": self.main}


def write_xml(m, at, opts=None):
    """gives every file of the Maker's schema its document; returns the files"""
    inh = {id(m.f): ""}
    todo = [m.f]
    out = []
    while todo:
        f = todo.pop(0)
        f.syntax = "rng"
        w = xmlsyn.Writer(m.r, at, f, inh[id(f)], opts)
        f.toks = w.run()
        out.append(f)
        for g, h in children(f):
            if id(g) not in inh and g.body is not None:
                inh[id(g)] = w.passed.get(id(g), "")
                if g.path not in getattr(m, "gone", ()):
                    todo.append(g)
    return out


def write(m, at, opts=None, style="mix"):
    """gives every file of the Maker's schema its tokens; returns the files"""
    r = m.r
    inh = {id(m.f): ""}
    todo = [m.f]
    out = []
    while todo:
        f = todo.pop(0)
        w = rnc.Writer(r, at, f, inh[id(f)], opts)
        if getattr(f, "clash", None):
            w.decls += [["dt", "cl", XSD], ["dt", "cl", XSD + "x"]] if f.clash == "same" else [["dt", "xsd", XSD + "x"]]
            r.shuffle(w.decls)
        if getattr(f, "declares", None):
            w.decls.append(["ns", f.declares[0], ["uri", f.declares[1]]])
            w.prefixes[f.declares[0]] = f.declares[1]
        f.toks = w.run()
        out.append(f)
        for g, h in children(f):
            if id(g) not in inh and g.body is not None:
                inh[id(g)] = h[1] if h and h[0] == "uri" else w.default
                if g.path not in getattr(m, "gone", ()):
                    todo.append(g)
    for f in out:
        f.text, f.ranges = rnc.layout(f.toks, r, style)
    return out


def children(f):
    out = []

    def items(ds):
        for d in ds:
            if d[0] == "define":
                pat(d[3])
            elif d[0] == "div":
                items(d[1])
            else:
                if isinstance(d[1], File):
                    out.append((d[1], d[3] if len(d) > 3 else None))
                items(d[2])

    def pat(p):
        if p[0] == "grammar":
            items(p[1])
        elif p[0] == "external":
            if isinstance(p[1], File):
                out.append((p[1], p[2] if len(p) > 2 else None))
        else:
            for b, i in kids(p):
                pat(b[i])
    if f.body[0] == "grammar":
        items(f.body[1])
    else:
        pat(f.body)
    return out


def shared(main):
    """whether there is a file that is referred to more than once"""
    seen, todo = {id(main)}, [main]
    while todo:
        for g, _ in children(todo.pop()):
            if id(g) in seen:
                return True
            seen.add(id(g))
            if g.body is not None:
                todo.append(g)
    return False


def vocabulary(main):
    """element names, attribute names and strings to try"""
    els, atts, strs = set(), set(), []

    def nc(n, to):
        if n[0] == "name":
            to.add((n[1], n[2]))
        elif n[0] == "nsName":
            to.add((n[1], "zz"))
            nc(n[2], to)
        elif n[0] == "anyName":
            nc(n[1], to)
        elif n[0] == "alt":
            nc(n[1], to)
            nc(n[2], to)
    for s in slots(main):
        p = s.p
        if p[0] == "element":
            nc(p[1], els)
        elif p[0] == "attribute":
            nc(p[1], atts)
        elif p[0] == "value":
            strs.append(uncodes(p[2]))
    return els, atts, strs


def cut(r, xs, n):
    xs = sorted(xs)
    r.shuffle(xs)
    return sorted(xs[:n])


def make(r, cid, lvl=1, faults=0, opts=None, style="mix", depth=6, kinds=None, edits=0, syntax="rnc", **kw):
    m = Maker(r, **kw)
    m.main()
    tag = ""
    for _ in range(faults):
        for _ in range(20):
            try:
                tag = (tag + " " + fault(m, r.choice(kinds) if kinds else None)).strip()
                break
            except Skip:
                pass
    if r.random() < kw.get("odd", 0.12):
        odd_names(r, m.f)
    at = rnc.At()
    if syntax == "both":
        m2 = copy.copy(m)
        m2.f = copy.deepcopy(m.f)
        one = finish(r, m, cid, write(m, at, None, style), lvl, tag, depth)
        files = write_xml(m2, at, opts)
        for f in files:
            xmlsyn.finish(f, r, style)
        two = Case(cid + "x", files, m.mainpath, one.names, one.atts, one.probes, depth, lvl, tag, gone=one.gone)
        # a file referred to from several places may inherit a namespace from each, which the two syntaxes pass on in different ways
        two.twin = one
        two.same = not shared(m.f)
        return two
    if syntax == "rng":
        files = write_xml(m, at, opts)
        for _ in range(edits):
            tag += " " + xmlsyn.edit(r, r.choice(files), at)
        for f in files:
            xmlsyn.finish(f, r, style)
        return finish(r, m, cid, files, lvl, tag, depth)
    files = write(m, at, opts, style)
    for _ in range(edits):
        f = r.choice(files)
        tag += " " + edit(r, f, at)
        f.text, f.ranges = rnc.layout(f.toks, r, style)
    return finish(r, m, cid, files, lvl, tag, depth)


def finish(r, m, cid, files, lvl, tag, depth):
    els, atts, strs = vocabulary(m.f)
    # the same local names in other namespaces
    els2 = set(els)
    for u, l in sorted(els)[:3]:
        els2.add((r.choice(URIS), l))
    els2.add((r.choice(URIS), "zz"))
    strs = list(dict.fromkeys(strs))
    r.shuffle(strs)
    return Case(cid, files, m.mainpath, cut(r, els, 7) + cut(r, els2 - els, 2), cut(r, atts, 3) + [("", "zz")], ["x"] + strs[:4], depth, lvl, tag,
                gone=getattr(m, "gone", ()))


# ---- running -----------------------------------------------------------------------------------

PLACE = re.compile(r"^\s*--> (.*):(\d+):(\d+)\s*$", re.M)
ANSI = re.compile("\x1b\\[[0-9;]*m")


def offset(text, line, col):
    """character offset of a 1-based line and column (in characters)"""
    ls = text.split("\n")
    if line > len(ls):
        return None
    return sum(len(x) + 1 for x in ls[:line - 1]) + col - 1


def underlined(shown, ln, line, k):
    """what is underlined from column k on of the line ln, as shown in a diagnostic"""
    ls = shown.split("\n")
    bare = ln.rstrip("\r")
    for x, y in zip(ls, ls[1:]):
        m = re.match(r"%d *\| (.*)$" % line, x, re.S)
        n = re.match(r" *\| (.*)$", y, re.S)
        if m and n and m[1].rstrip("\r").endswith(bare):
            i = k + len(m[1].rstrip("\r")) - len(bare)
            c = re.match(r"\^+", n[1][i:])
            if c and n[1][:i][-1:] != "^" and (n[1][:i][-1:] != "_" or "_^" not in n[1]):
                return ln[k:k + len(c[0])] or "?"
    return "?"


def place(case, comp):
    """the token that the diagnostic points at: its number, -2 if it points nowhere, -1 if to no token;
    the file; and the text that is underlined, "?" if that is not a part of one line"""
    d = comp.get("diag")
    if not d or "text" not in d:
        return -2, [], "?"
    t = ANSI.sub("", d["text"])
    ps = PLACE.findall(t)
    if not ps:
        return -2, [], "?"
    path, line, col = ps[0]
    for f in case.files:
        if f.path == path:
            o = offset(f.text, int(line), int(col))
            if o is None:
                return -1, norm(path), "?"
            ln = f.text.split("\n")[int(line) - 1]
            mark = underlined(t, ln, int(line), int(col) - 1)
            for at, (a, b) in f.ranges.items():
                if a <= o < b:
                    return at, norm(path), mark
            return -1, norm(path), mark
    return -1, norm(path), "?"


def norm(path):
    return rnc.segs(path)


TAGS = ("DuplicateDefinition", "OverrideMissingFromInclude", "ElementAsChildOfAttribute", "DefineRulesMixesChoiceAndInterleave")


def observe(case, res):
    c = res.get("compile")
    o = {"ok": False, "k": "crash", "id": "", "path": [], "at": -2, "file": [], "mark": "?"}
    if c is None or c.get("panic"):
        return o
    if c["ok"]:
        o.update(ok=True, k="")
        return o
    if c.get("again_panic") or (c.get("diag") or {}).get("panic"):
        return o
    e = c
    while e.get("inner"):
        e = e["inner"]
    o.update(k="Parse" if e["kind"] == "XmlParse" else e["kind"], id=e.get("ident") or "", path=norm(e["path"]) if e.get("path") else [])
    # two errors carry no place of their own; that of an include is then shown
    noplace = e["kind"] == "DatatypePrefixAlreadyDefined" or "ConflictingFacet" in e.get("detail", "")
    if not noplace:
        o["at"], o["file"], mark = place(case, c)
        if case.syntax == "rng" and mark != "?":
            # what is pointed out may be written with references, have white space around it or be a prefixed tag name
            mark = html.unescape(mark).strip()
            mark = mark.split(":")[-1] if o["k"] in TAGS else mark
        elif o["k"] == "ElementAsChildOfAttribute" and mark != "?":
            mark = "element" if mark == "e" or re.match(r"element\b", mark) else mark      # all of it is pointed out
        elif mark == "s" and (o["id"] == "start" or o["k"] == "DefineRulesMixesChoiceAndInterleave"):
            mark = "start"      # just the first letter is pointed out
        o["mark"] = mark
    return o


def conv(p, probes):
    k = p[0]
    if k in ("choice", "group", "interleave"):
        if not p[1]:
            return ["notAllowed"] if k == "choice" else ["empty"]
        return [k, [conv(x, probes) for x in p[1]]]
    if k in ("pvalue", "pdata"):
        return ["oneof", [codes(s) for s, b in zip(probes, p[1]) if b], conv(p[2], probes) if k == "pdata" and p[2] != NONE else ["none"]]
    if k in ("optional", "zeroOrMore", "oneOrMore", "mixed", "list"):
        return [k, conv(p[1], probes)]
    if k in ("element", "attribute"):
        return [k, p[1], conv(p[2], probes)]
    return p


def codes(s):
    return [ord(c) for c in s]


def run(rep, cases, wd, limit_ms=20000, timeout=None, dump=True):
    cases = [x for c in cases for x in ([c.twin] if c.twin else []) + [c]]
    hs = [{"id": c.id, "syntax": c.syntax, "main": c.main, "files": c.texts(), "docs": [], "dump": dump, "probes": c.probes, "diag": True} for c in cases]
    results = base.run_cases(hs, wd, limit_ms)
    recs, idx, dumps, twins = [], {}, {}, []
    for c in cases:
        r = results[c.id]
        idx[c.id] = (c, r)
        o = observe(c, r)
        d = []
        if o["ok"] and dump:
            if "dump" not in r:
                o = dict(o, ok=False, k="crash")
            else:
                d = {i: conv(x["pat"], c.probes) for i, x in r["dump"].items()}
        dumps[c.id] = d
        recs.append({"id": c.id, "twin": {}, "main": norm(c.main), "obs": o, "lvl": c.lvl, "depth": c.depth, "dump": d,
                     "loaded": [norm(p) for p in r.get("loaded", [])], "loads": [norm(p) for p in r.get("loads", [])],
                     "files": [{"path": norm(f.path), "syntax": f.syntax, "toks": rnc.strip(f.toks) if f.syntax == "rnc" else f.toks,
                                "tab": {"32": " "} if f.syntax == "rnc" else xmlsyn.table(f.toks)}
                               for f in c.files if f.path not in c.gone],
                     "names": [list(x) for x in c.names], "atts": [list(x) for x in c.atts], "probes": [codes(x) for x in c.probes]})
        if c.twin and c.same and d and dumps[c.twin.id]:
            twins.append(dict(recs[-1], id=c.id + "=", twin=dumps[c.twin.id], files=[]))
            idx[c.id + "="] = (c, r)
    recs += twins
    cp = os.path.join(wd, "schemas.ndjson")
    base.ndjson(cp, recs)
    t = base.tlc("TraceSchema", wd, {"CASES": cp}, timeout=timeout)
    rep.add_tlc(t)
    bad, un = {}, set()
    for m in t["marks"]:
        x = re.match(r'<<\s*"@@UNCLAIMED",\s*"([^"]*)"', m)
        if x:
            un.add(x.group(1))
            continue
        x = re.match(r'<<\s*"@@MISMATCH",\s*"([^"]*)",\s*"([^"]*)",\s*(.*)>>$', m, re.S)
        if not x:
            raise base.ToolError("unreadable mark " + m)
        bad.setdefault(x.group(1), (x.group(2), x.group(3)))
    for cid, (why, spec) in bad.items():
        c, r = idx[cid]
        rep.violation("%s: schema %s; specification: %s; implementation: %s"
                      % (why, json.dumps(c.texts())[:1500], spec[:600], json.dumps(r.get("compile"))[:500]),
                      {"key": dict(c.key(), twin=c.twin.texts()) if cid.endswith("=") else c.key(), "why": why, "tag": c.tag, "spec": spec, "observed": {k: r.get(k) for k in ("compile", "loaded", "loads", "dump", "crash", "timeout")}})
    rep.validated += 0 if t["undecided"] else len(cases) - len(un)
    e = rep.extra
    e["schemas_in_both_syntaxes"] = e.get("schemas_in_both_syntaxes", 0) + len(twins)
    e["schemas"] = e.get("schemas", 0) + len(cases)
    e["schemas_correct"] = e.get("schemas_correct", 0) + sum(1 for x in recs if x["obs"]["ok"] and not x["twin"])
    e["schemas_unclaimed"] = e.get("schemas_unclaimed", 0) + len(un)
    for c in cases[:2]:
        rep.sample({"files": c.texts(), "observed": {k: v for k, v in observe(c, idx[c.id][1]).items()}})
    return bad, un, idx, recs


SYMBOLS = ["{", "}", "(", ")", "[", "]", ",", "&", "|", "?", "*", "+", "-", "=", "|=", "&=", "~", ">>"]
STRAY = ["@", "!", "%", "/", ";", "^", "<", "$", "0", "12", "\u00d7", '"a\nb"', "'x\ry'", "'\r\n'"]


# the ends of the ranges of name characters and what is just outside of them; nothing that is a token or separates tokens
EDGES = sorted({c for lo, hi in ((0x41, 0x5a), (0x61, 0x7a), (0x5f, 0x5f), (0x30, 0x39), (0x2d, 0x2e), (0xb7, 0xb7), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x300, 0x36f), (0x370, 0x37d),
                 (0x37f, 0x1fff), (0x200c, 0x200d), (0x203f, 0x2040), (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd), (0x10000, 0xeffff))
                for c in (lo - 1, lo, hi, hi + 1) if not 0xd800 <= c < 0xe000 and chr(c) not in "{[:,#+*"} | {0xa0, 0x85, 0x2028, 0x200b, 0x10ffff})


def a_word(r, t):
    """a name, or almost, for the token t; the specification says which"""
    esc = "\\" if t["k"] == "q" or r.random() < 0.1 else ""
    p, s = (t["p"], t["s"]) if t["k"] == "c" else ("", t["s"] if t["k"] in "wq" else "ab")

    def change(s):
        i = r.choice([0, 0, len(s), r.randint(0, len(s))])
        c = chr(r.choice(EDGES))
        if c == "-" and i == 0 and not esc:
            c = "\u00b7"
        return s[:i] + c + s[i + (1 if r.random() < 0.3 else 0):]
    if p and r.random() < 0.5:
        p = change(p)
    else:
        s = change(s)
    if p and s.startswith("-"):
        s = "\u00b7"
    return {"k": "x", "e": esc, "p": p, "s": s, "pc": rnc.codes(p), "c": rnc.codes(s), "sep": True}


def a_token(r, f, at):
    k = r.random()
    if k < 0.4:
        t = dict(r.choice(f.toks))
    elif k < 0.6:
        t = {"k": "s", "s": r.choice(SYMBOLS)}
    elif k < 0.85:
        t = {"k": "w", "s": r.choice(sorted(schema.KEYWORDS) + ["d0", "d1", "a", "Start"])}
    elif k < 0.9:
        t = {"k": "bad", "s": r.choice(STRAY)}
    elif k < 0.93:
        t = {"k": "q", "s": r.choice(["start", "a", "d0", "text"])}
    elif k < 0.97:
        t = {"k": "c", "p": r.choice(["xsd", "p", "q", "xml"]), "s": r.choice(["string", "a", "int"])}
    else:
        t = {"k": "l", "c": rnc.codes("x y"), "u": "x y", "f": ["x y"], "r": []}
    return dict(t, at=at.next(), sep=True)


def edit(r, f, at):
    """change the tokens of the file f in one place"""
    ts = f.toks
    i = r.randrange(len(ts))
    k = r.choice(["delete", "delete", "insert", "replace", "swap", "double", "cut", "take", "word", "word"])
    if k == "word":
        ws = [j for j in range(len(ts)) if ts[j]["k"] in "wqc"]
        i = r.choice(ws or [i])
        ts[i] = dict(a_word(r, ts[i]), at=ts[i]["at"])
    elif k == "delete":
        del ts[i]
    elif k == "insert":
        ts.insert(r.randint(0, len(ts)), a_token(r, f, at))
    elif k == "replace":
        ts[i] = a_token(r, f, at)
    elif k == "swap" and i + 1 < len(ts):
        ts[i], ts[i + 1] = ts[i + 1], ts[i]
    elif k == "double":
        ts.insert(i, dict(ts[i], at=at.next(), sep=True))
    elif k == "cut":
        del ts[r.choice([i, len(ts) - 1]):]
    elif k == "take":
        del ts[i:i + r.randint(2, 4)]
    if not ts:
        ts.append({"k": "w", "s": "empty", "at": at.next()})
    if len(ts) > 1:
        # what begins something stands apart from what comes before it
        for j in range(1, len(ts)):
            if ts[j]["k"] in "wqcx" and ts[j - 1]["k"] in "wqcnlx":
                ts[j]["sep"] = True
    return k


def facets(r, t):
    ps = (dtgen.num_facets if t in dtgen.NUMERIC or t == "xsd:boolean" else dtgen.str_facets)(r, t)
    return [[n, v if n == "pattern" else rnc.codes(v)] for n, v in ps]


TYPES = dtgen.NUMERIC + ["xsd:boolean"] + dtgen.STRINGLIKE


def mix(r, k, n, shares, **kw):
    """n cases; shares: [(weight, arguments of make)]"""
    out = []
    for i in range(n):
        o = r.choices([x for _, x in shares], [w for w, _ in shares])[0]
        out.append(make(r, "c%d_%d" % (k, i), **dict(kw, **o)))
    return out
