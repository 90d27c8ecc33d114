"""Schema files in the compact syntax: from what they are to say to tokens (spec/Compact.tla)
and from tokens to text, with every choice of spelling and layout taken at random."""
import os
import re
from rdoc import codes
from schema import NONE, KEYWORDS, re_text
from rdoc import uncodes

XSD = "http://www.w3.org/2001/XMLSchema-datatypes"


class At:
    """numbers tokens, over all files of a schema"""
    def __init__(self):
        self.n = 0
        self.info = {}

    def next(self):
        self.n += 1
        return self.n


class File:
    """body: a pattern, or ["grammar", items] for a grammar; patterns as in spec/Rng.tla with
    ["external", File|path, inherit], ["grammar", items], ["parentref", name];
    items ["define", name, method, pattern], ["div", items], ["include", File|path, overrides, inherit]"""
    def __init__(self, path, body, default=None, syntax="rnc"):
        self.path, self.body, self.default = path, body, default
        self.toks = None
        self.text = None
        self.ranges = {}
        self.syntax = syntax


def segs(s):
    """a leading slash gives an empty first segment"""
    return s.split("/")


def relref(frm, to, r=None):
    """a reference in the file frm to the file to"""
    d = os.path.dirname(frm)
    p = os.path.relpath("/r/" + to, "/r/" + d if d else "/r")
    if r is not None:
        k = r.random()
        if k < 0.2:
            p = "./" + p
        elif k < 0.3 and not p.startswith("."):
            p = "zz/../" + p
        elif k < 0.35 and "/" in p:
            i = p.index("/")
            p = p[:i] + "/." + p[i:]
    return p


class Writer:
    """tokens of one file"""
    def __init__(self, r, at, f, inh="", o=None):
        self.r, self.at, self.f, self.inh = r, at, f, inh
        self.o = dict(parens=0.1, quote=0.05, split=0.1, notes=0.0, xsdprefix=0.15, extrans=0.1, inherit=0.0)
        self.o.update(o or {})
        self.prefixes = {}          # prefix -> uri
        self.dts = {}               # prefix -> library
        self.decls = []
        self.out = []
        r = self.r
        d = f.default
        if d is None:
            self.default = inh
        else:
            self.default = d
            p = None
            if r.random() < 0.3:
                p = self.fresh()
                self.prefixes[p] = d
            how = ["inherit"] if d == inh and r.random() < 0.5 else ["uri", d]
            self.decls.append(["default", p, how])
        if r.random() < self.o["extrans"]:
            p = self.fresh()
            self.decls.append(["ns", p, ["uri", "urn:unused"]])
            self.prefixes[p] = "urn:unused"
        if r.random() < self.o["inherit"]:
            p = self.fresh()
            self.decls.append(["ns", p, ["inherit"]])
            self.prefixes[p] = inh

    def fresh(self):
        used = set(self.prefixes) | set(self.dts)
        pool = [p for p in ("p", "q", "n1", "n2", "s.t", "local", "div", "element", "text", "listing", "_u", "\u00e9t") if p not in used]
        return self.r.choice(pool or ["p%d" % len(used)])

    def prefix(self, uri):
        if uri == XML:
            return "xml"
        c = [p for p, u in self.prefixes.items() if u == uri and p not in self.dts]
        if c and self.r.random() < 0.95:
            return self.r.choice(c)
        p = self.fresh()
        self.prefixes[p] = uri
        self.decls.append(["ns", p, ["uri", uri]])
        return p

    def dtprefix(self, uri):
        c = [p for p, u in self.dts.items() if u == uri]
        if uri == XSD and not any(d[0] == "dt" and d[1] == "xsd" and d[2] != XSD for d in self.decls):
            c.append("xsd")
        if c and self.r.random() > self.o["xsdprefix"]:
            return self.r.choice(c)
        if c and len(c) > 2:
            return self.r.choice(c)
        p = self.fresh()
        self.dts[p] = uri
        self.decls.append(["dt", p, uri])
        return p

    # -- tokens
    def tok(self, k, sep=False, **kw):
        t = {"k": k, "at": self.at.next(), **kw}
        if sep:
            t["sep"] = True
        self.out.append(t)
        return t

    def w(self, s, sep=False):
        return self.tok("w", s=s, sep=sep)

    def sym(self, s):
        return self.tok("s", s=s)

    def name(self, s, sep=False, kwok=False):
        """an identifier (kwok: or keyword)"""
        if (s in KEYWORDS and not (kwok and self.r.random() < 0.7)) or self.r.random() < self.o["quote"]:
            return self.tok("q", s=s, sep=sep)
        return self.tok("w", s=s, sep=sep)

    def defname(self, s, sep=False):
        if s == "\\start":
            return self.tok("q", s="start", sep=sep)
        return self.name(s, sep)

    def lit(self, s, re=None):
        r = self.r
        pieces = [s]
        if re is None and r.random() < self.o["split"] and s:
            i = r.randint(0, len(s))
            pieces = [s[:i], s[i:]]
        out = []
        for p in pieces:
            out += self.quotable(p)
        for i, p in enumerate(out):
            if i:
                self.sym("~")
            self.tok("l", c=codes(p), u=p, f=segs(p), r=re if re is not None and len(out) == 1 else [])
        return len(out) == 1 or re is None

    def quotable(self, s):
        """pieces of s that can each be written as one literal segment"""
        if '"' in s and "'" in s and '"""' in s and "'''" in s:
            i = s.index('"""') + 1
            return self.quotable(s[:i]) + self.quotable(s[i:])
        return [s] if ways(s) else self.quotable(s[:len(s) // 2]) + self.quotable(s[len(s) // 2:])

    # -- declarations
    def write_decls(self):
        body, self.out = self.out, []
        for d in self.decls:
            if d[0] == "ns":
                self.w("namespace", True)
                self.name(d[1], kwok=True)
                self.sym("=")
                self.nsuri(d[2])
            elif d[0] == "default":
                self.w("default", True)
                self.w("namespace")
                if d[1]:
                    self.name(d[1], kwok=True)
                self.sym("=")
                self.nsuri(d[2])
            else:
                self.w("datatypes", True)
                self.name(d[1], kwok=True)
                self.sym("=")
                self.lit(d[2])
        if body:
            body[0]["sep"] = True
        self.out += body

    def nsuri(self, u):
        if u[0] == "inherit":
            self.w("inherit")
        else:
            self.lit(u[1])

    # -- name classes
    def nc(self, n, attr, basic=False):
        if n[0] == "alt":
            self.nc1(n, attr, basic)
            return
        if self.r.random() < self.o["notes"] / 3:
            self.note(n)
        self.nc1(n, attr, basic)
        if not (n[0] in ("nsName", "anyName") and n[-1] != NONE) and self.r.random() < self.o["notes"] / 4:
            self.follow()

    def nc1(self, n, attr, basic=False):
        k = n[0]
        r = self.r
        if k == "name":
            if r.random() < self.o["parens"] * 0.5:
                self.sym("(")
                self.nc(n, attr)
                self.sym(")")
                return
            plain = n[1] == ("" if attr else self.default)
            if plain and r.random() < 0.9:
                self.name(n[2], kwok=True)
            elif n[1] == XML:
                self.tok("c", p="xml", s=n[2])
            else:
                self.tok("c", p=self.prefix(n[1]), s=n[2])
            return
        if basic and k == "alt":
            self.sym("(")
            self.nc(n, attr)
            self.sym(")")
            return
        if k == "nsName":
            self.tok("n", p=self.prefix(n[1]))
            if n[2] != NONE:
                self.sym("-")
                self.nc(n[2], attr, True)
        elif k == "anyName":
            self.sym("*")
            if n[1] != NONE:
                self.sym("-")
                self.nc(n[1], attr, True)
        elif k == "alt":
            for i, x in enumerate(n[1:]):
                if i:
                    self.sym("|")
                paren = x[0] in ("nsName", "anyName") and x[-1] != NONE or (x[0] == "alt" and i == 0)
                if paren:
                    self.sym("(")
                self.nc(x, attr)
                if paren:
                    self.sym(")")
        elif k == "bad":                 # a name with a prefix that is not declared
            self.tok("c", p=n[1], s=n[2])
        elif k == "badns":
            self.tok("n", p=n[1])
        else:
            raise ValueError(n)

    # -- patterns; prec 0: anything may stand here, 1: a particle, 2: a primary
    def pat(self, p, prec=0):
        r = self.r
        k = p[0]
        need = {"choice": 1, "group": 1, "interleave": 1}.get(k, 0)
        if k in ("choice", "group", "interleave") and len(p[1]) == 1:
            need = 3
        if k in ("optional", "zeroOrMore", "oneOrMore"):
            need = 2
        if k == "data" and p[3] != NONE:
            need = 1
        if (need and prec >= need) or need == 3 or r.random() < self.o["parens"]:
            self.sym("(")
            self.raw(p)
            self.sym(")")
        else:
            self.raw(p)

    def raw(self, p):
        self.raw1(p)
        if p[0] not in ("choice", "group", "interleave", "optional", "zeroOrMore", "oneOrMore") and self.r.random() < self.o["notes"] / 3:
            self.follow()

    def follow(self):
        for _ in range(self.r.choice([1, 1, 2])):
            self.sym(">>")
            self.noteel()

    def raw1(self, p):
        r = self.r
        k = p[0]
        if r.random() < self.o["notes"] and k not in ("choice", "group", "interleave", "optional", "zeroOrMore", "oneOrMore"):
            self.note(p)
        if k in ("empty", "notAllowed", "text"):
            self.w(k)
        elif k in ("choice", "group", "interleave"):
            if len(p[1]) == 1:
                self.pat(p[1][0])
                return
            op = {"choice": "|", "group": ",", "interleave": "&"}[k]
            for i, x in enumerate(p[1]):
                if i:
                    self.sym(op)
                self.pat(x, 1)
        elif k in ("optional", "zeroOrMore", "oneOrMore"):
            self.pat(p[1], 2)
            self.sym({"optional": "?", "zeroOrMore": "*", "oneOrMore": "+"}[k])
        elif k in ("mixed", "list"):
            self.w(k)
            self.braced(p[1])
        elif k in ("element", "attribute"):
            self.w(k)
            self.nc(p[1], k == "attribute")
            self.braced(p[2])
        elif k == "ref":
            self.defname(p[1])
        elif k == "parentref":
            self.w("parent")
            self.defname(p[1])
        elif k == "value":
            if p[1] != "token" or r.random() < 0.5:
                self.dt(p[1])
            self.lit(uncodes(p[2]))
        elif k == "data":
            self.dt(p[1])
            if p[2] or r.random() < 0.05:
                self.sym("{")
                for x in p[2]:
                    if r.random() < self.o["notes"] / 2:
                        self.note(p, True)
                    self.name(x[0], sep=True, kwok=True)
                    self.sym("=")
                    if x[0] == "pattern":
                        self.lit(re_text(x[1]), re=x[1])
                    else:
                        self.lit(uncodes(x[1]))
                self.sym("}")
            if p[3] != NONE:
                self.sym("-")
                e = p[3]
                if e[0] in ("value", "data", "list", "ref") and not (e[0] == "data" and e[3] != NONE) and r.random() < 0.5:
                    self.raw(e)
                else:
                    self.sym("(")
                    self.pat(e)
                    self.sym(")")
        elif k == "external":
            self.w("external")
            self.href(p[1])
            self.inherit(p[2] if len(p) > 2 else None)
        elif k == "grammar":
            self.w("grammar")
            self.sym("{")
            self.items(p[1])
            self.sym("}")
        else:
            raise ValueError(p)

    def note(self, p, sep=False):
        """an annotation before a pattern"""
        self.tok("s", s="[", sep=sep)
        for _ in range(self.r.randint(0, 2)):
            self.tok("c", p=self.prefix("urn:note"), s="a%d" % self.at.n, sep=True)
            self.sym("=")
            self.lit("v ] x")
        if self.r.random() < 0.4:
            self.noteel()
        self.sym("]")

    def noteel(self):
        self.tok("c", p=self.prefix("urn:note"), s="doc", sep=True)
        self.sym("[")
        if self.r.random() < 0.6:
            self.lit("some { text")
        elif self.r.random() < 0.5:
            self.noteel()
        self.sym("]")

    def braced(self, p):
        self.sym("{")
        self.pat(p)
        self.sym("}")

    def dt(self, t):
        if t.startswith("xsd:"):
            self.tok("c", p=self.dtprefix(XSD), s=t[4:])
        elif t in ("string", "token"):
            self.w(t)
        elif t.startswith("lib "):
            _, uri, name = t.split(" ")
            self.tok("c", p=self.dtprefix(uri), s=name)
        else:                             # prefix:name, as it is
            a, b = t.split(":")
            self.tok("c", p=a, s=b)

    def href(self, to):
        path = to.path if isinstance(to, File) else to
        self.lit(relref(self.f.path, path, self.r))

    def inherit(self, u):
        if u is None:
            return
        self.w("inherit", sep=True)
        self.sym("=")
        self.name(u[1] if u[0] == "bad" else self.prefix(u[1]), kwok=True)

    # -- grammars
    def items(self, items, over=False):
        for d in items:
            n = len(self.out)
            if self.r.random() < self.o["notes"] / 2:
                self.noteel()
            if self.r.random() < self.o["notes"]:
                self.note(d, True)
                n = len(self.out)
            if d[0] == "define":
                if d[1] == "start":
                    self.w("start", True)
                else:
                    self.defname(d[1], True)
                self.sym(d[2])
                self.pat(d[3])
            elif d[0] == "div":
                self.w("div", True)
                self.sym("{")
                self.items(d[1], over)
                self.sym("}")
            elif d[0] == "include":
                self.w("include", True)
                self.href(d[1])
                self.inherit(d[3] if len(d) > 3 else None)
                if d[2] or self.r.random() < 0.1:
                    self.sym("{")
                    self.items(d[2], True)
                    self.sym("}")
            else:
                raise ValueError(d)
            self.out[n]["doc"] = True

    def run(self):
        b = self.f.body
        if b[0] == "grammar" and b[1] and self.r.random() < 0.8:
            self.items(b[1])
        elif b[0] == "grammar":
            self.raw(b)
        else:
            self.pat(b)
        self.write_decls()
        return self.out


XML = "http://www.w3.org/XML/1998/namespace"


def ways(s):
    """the quotings in which s can be written as one literal segment"""
    w = []
    for q in ('"', "'"):
        if q not in s and "\n" not in s and "\r" not in s:
            w.append(q)
        if q * 3 not in s and not s.endswith(q) and not s.startswith(q):
            w.append(q * 3)
    return w


def layout(toks, r, style="mix"):
    """text and {at: (start, end)} in characters"""
    out, pos, ranges = [], 0, {}

    def put(s):
        nonlocal pos
        out.append(s)
        pos += len(s)

    def space(must, doc=False):
        k = r.random()
        if style == "plain":
            if must or k < 0.5:
                put(" ")
            return
        if not must and k < 0.45:
            return
        n = r.choice([1, 1, 1, 2])
        for _ in range(n):
            k = r.random()
            if k < 0.55:
                put(" ")
            elif k < 0.8:
                put(r.choice(["\n", "\n  ", "\r\n", "\t", "\r", "\n", "\r\n\r\n"]))
            else:
                put(r.choice(["# a comment\n", "#\n", "# } \" ' ~\n", "  # start = x\r\n", "## doc\n" if doc else "#doc\n", "# \u00e9\u3042\n", "# start = y\r"]))
    if style != "plain" and r.random() < 0.05:
        put("\ufeff")
    prev = None
    if style != "plain" and r.random() < 0.3:
        space(False)
    for t in toks:
        if prev is not None:
            wordy = prev["k"] in "wqcx"
            must = wordy and (t["k"] in "wqcnx" or t.get("s") == "-")
            if prev["k"] == "l" and t["k"] == "l":
                must = True
            if (wordy or prev["k"] == "l") and t["k"] == "bad" or prev["k"] == "bad" and t["k"] == "l":
                must = True
            space(must, t.get("doc"))
        s = spell(t, r)
        a = pos
        put(s)
        ranges[t["at"]] = (a, pos)
        prev = t
    if r.random() < 0.8 and style != "plain":
        put(r.choice(["\n", "", " \n", "# end", "# end\n"]))
    return "".join(out), ranges


def spell(t, r):
    k = t["k"]
    if k in ("w", "s"):
        return t["s"]
    if k == "q":
        return "\\" + t["s"]
    if k == "c":
        return t["p"] + ":" + t["s"]
    if k == "n":
        return t["p"] + ":*"
    if k == "l":
        q = r.choice(ways(t["u"]))
        # however a line ends, a line feed is meant
        return q + re.sub("\n", lambda m: r.choice(["\n", "\n", "\r\n", "\r"]), t["u"]) + q
    if k == "bad":
        return t["s"]
    if k == "x":
        return t["p"] + ":" + t["s"] if t["p"] else t["e"] + t["s"]
    raise ValueError(t)


def strip(toks):
    """tokens as the specification wants them"""
    return [{k: v for k, v in t.items() if k not in ("sep", "doc")} for t in toks]
