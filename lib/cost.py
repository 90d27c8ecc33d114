"""Estimates what it costs to follow a document through a schema, so that the
generators can leave out the rare ambiguous pairs on which the derivatives
explode.  It decides nothing: attributes, values and text are not looked at."""
import schema

NA, EMPTY, TEXT = ("n",), ("e",), ("t",)


class Cost(Exception):
    pass


class Est:
    def __init__(self, defs, limit):
        self.d, self.limit, self.n, self.els = defs, limit, 0, {}

    def tick(self, k=1):
        self.n += k
        if self.n > self.limit:
            raise Cost()

    def orset(self, s):
        self.tick(len(s) + 1)
        if not s:
            return NA
        if len(s) == 1:
            return next(iter(s))
        return ("o", frozenset(s))

    def alts(self, p):
        return p[1] if p[0] == "o" else () if p == NA else (p,)

    def bin(self, k, p, q):
        self.tick()
        if p == NA or q == NA:
            return NA
        if p == EMPTY:
            return q
        if q == EMPTY:
            return p
        return (k, p, q)

    def after(self, p, q):
        self.tick()
        return NA if p == NA or q == NA else ("a", p, q)

    def core(self, p):
        k = p[0]
        self.tick()
        if k in ("empty", "attribute"):
            return EMPTY
        if k == "notAllowed":
            return NA
        if k == "text":
            return TEXT
        if k in ("value", "data", "list"):
            return ("v",)
        if k in ("choice", "group", "interleave"):
            r = self.core(p[1][-1])
            for x in reversed(p[1][:-1]):
                h = self.core(x)
                r = self.orset(set(self.alts(h)) | set(self.alts(r))) if k == "choice" else self.bin("g" if k == "group" else "i", h, r)
            return r
        if k == "optional":
            return self.orset(set(self.alts(self.core(p[1]))) | {EMPTY})
        if k in ("oneOrMore", "zeroOrMore"):
            c = self.core(p[1])
            c = c if c in (NA, EMPTY) else ("+", c)
            return c if k == "oneOrMore" else self.orset(set(self.alts(c)) | {EMPTY})
        if k == "mixed":
            return self.bin("i", self.core(p[1]), TEXT)
        if k == "ref":
            return self.core(self.d[p[1]])
        if k == "element":
            self.els[id(p)] = p
            return ("el", id(p))
        raise ValueError(k)

    def nullable(self, p):
        self.tick()
        k = p[0]
        if k == "o":
            return any(self.nullable(x) for x in p[1])
        if k in "gi" and len(p) == 3:
            return self.nullable(p[1]) and self.nullable(p[2])
        if k == "+":
            return self.nullable(p[1])
        return k in ("e", "t", "v")

    def mapafter(self, d, f):
        return self.orset({self.after(x[1], f(x[2])) for x in self.alts(d)} - {NA})

    def open(self, p, u, l):
        self.tick()
        k = p[0]
        if k == "o":
            s = set()
            for x in p[1]:
                s.update(self.alts(self.open(x, u, l)))
            return self.orset(s)
        if k == "el":
            e = self.els[p[1]]
            return self.after(self.core(e[2]), EMPTY) if schema.nc_in(e[1], u, l) else NA
        if k == "i":
            a = self.mapafter(self.open(p[1], u, l), lambda x: self.bin("i", x, p[2]))
            b = self.mapafter(self.open(p[2], u, l), lambda x: self.bin("i", x, p[1]))
            return self.orset(set(self.alts(a)) | set(self.alts(b)))
        if k == "+":
            return self.mapafter(self.open(p[1], u, l), lambda x: self.bin("g", x, self.orset({p, EMPTY})))
        if k == "g":
            a = self.mapafter(self.open(p[1], u, l), lambda x: self.bin("g", x, p[2]))
            if self.nullable(p[1]):
                a = self.orset(set(self.alts(a)) | set(self.alts(self.open(p[2], u, l))))
            return a
        if k == "a":
            return self.mapafter(self.open(p[1], u, l), lambda x: self.after(x, p[2]))
        return NA

    def text(self, p):
        self.tick()
        k = p[0]
        if k == "o":
            s = set()
            for x in p[1]:
                s.update(self.alts(self.text(x)))
            return self.orset(s)
        if k == "i":
            a, b = self.bin("i", self.text(p[1]), p[2]), self.bin("i", p[1], self.text(p[2]))
            return self.orset(set(self.alts(a)) | set(self.alts(b)))
        if k == "g":
            a = self.bin("g", self.text(p[1]), p[2])
            if self.nullable(p[1]):
                a = self.orset(set(self.alts(a)) | set(self.alts(self.text(p[2]))))
            return a
        if k == "a":
            return self.after(self.text(p[1]), p[2])
        if k == "+":
            return self.bin("g", self.text(p[1]), self.orset({p, EMPTY}))
        return TEXT if k == "t" else EMPTY if k == "v" else NA

    def end(self, p):
        s = set()
        for x in self.alts(p):
            if x[0] == "a" and self.nullable(x[1]):
                s.update(self.alts(x[2]))
        return self.orset(s)


def cost(defs, tree, limit=20000):
    """the number of steps, or None when it exceeds the limit"""
    e = Est(defs, limit)
    try:
        p = e.core(defs["start"])

        def walk(t, p):
            p = e.open(p, t["ns"], t["local"])
            if p == NA:
                return p
            for k in t["kids"]:
                if isinstance(k, str):
                    q = e.text(p)
                    p = p if q == NA else q if k.strip() else e.orset(set(e.alts(p)) | set(e.alts(q)))
                else:
                    p = walk(k, p)
                if p == NA:
                    return p
            return e.end(p)
        walk(tree, p)
        return e.n
    except (Cost, RecursionError):
        return None
