"""Schema files in the XML syntax: from what they are to say to a document (spec/XmlSyntax.tla)
and from the document to text, with every choice of spelling and layout taken at random."""
import os
import rnc
from rdoc import codes, uncodes
from rnc import File, XSD, XML
from schema import NONE, re_text

RN = "http://relaxng.org/ns/structure/1.0"
ITEMS = {"=": None, "|=": "choice", "&=": "interleave"}


def directory(base):
    """the part of the base that references are relative to"""
    return base + "/" if base.split("/")[-1] in (".", "..") else base[:base.rfind("/") + 1]


class Env:
    """what is in scope: the prefixes, ns (None: that of the place where the file is referred to),
    the datatype library and the base"""
    def __init__(self, ns=(), uri=None, lib="", base=None):
        self.ns, self.uri, self.lib, self.base = dict(ns), uri, lib, base

    def copy(self):
        return Env(self.ns, self.uri, self.lib, self.base)


class Writer:
    def __init__(self, r, at, f, inh="", o=None):
        self.r, self.at, self.f, self.inh = r, at, f, inh
        self.o = dict(foreign=0.06, moreatts=0.05, ns=0.08, lib=0.06, redeclare=0.05, names=0.3, wrap=0.1, comments=0.1, base=0.04, pad=0.06)
        self.o.update(o or {})
        self.passed = {}           # id(file) -> the namespace it inherits first
        self.default = inh

    # -- elements
    def el(self, name, V, **atts):
        """a new RELAX NG element in V; (node, what is in scope within it)"""
        r, o = self.r, self.o
        W = V.copy()
        n = {"k": "e", "n": name, "d": [], "a": [], "ch": [], "at": self.at.next(), "r": []}
        root = not V.ns
        if root or r.random() < o["redeclare"]:
            p = r.choice(["", "", "", "r", "rng", "\u00e9", "\u3042\u3044\u3046"])
            self.declare(n, W, p, RN)
        for _ in range(2):
            if r.random() < (0.3 if root else o["redeclare"]):
                self.declare(n, W, r.choice(["p", "q", "a", "x.y", "r2"]), r.choice(["urn:a", "urn:b", "urn:n", "urn:a"]))
        ps = [p for p, u in W.ns.items() if u == RN]
        if not ps:
            self.declare(n, W, "rr", RN)
            ps = ["rr"]
        n["p"] = r.choice(ps)
        if root and self.f.default is not None:
            self.setns(n, W, self.f.default)
        if root and getattr(self.f, "declares", None):
            self.declare(n, W, *self.f.declares)
        elif r.random() < o["ns"]:
            self.setns(n, W, r.choice(["", "urn:a", "urn:b"]))
        if r.random() < (0.3 if root else o["lib"]):
            self.setlib(n, W, r.choice([XSD, XSD, "", "urn:lib"]))
        if r.random() < o["base"]:
            b = r.choice(["sub/", "sub/x", "../o/", "o/p/", "x", "./", "..", ".", "sub/..", "../."])
            new = b if W.base is None else directory(W.base) + b
            if not self.where(new).startswith(".."):
                n["a"].append(att("base", b, "xml"))
                W.base = new
        for k, v in atts.items():
            if v is not None:
                n["a"].append(att(k, v))
        if r.random() < o["moreatts"]:
            self.foreign_att(n, W)
        return n, W

    def where(self, base):
        """the file as if in which references relative to the base were written"""
        return os.path.normpath(os.path.join(os.path.dirname(self.f.path), directory(base) + "x"))

    def declare(self, n, W, p, uri):
        if any(x[0] == p for x in n["d"]) or (p == "" and uri != RN):
            return
        n["d"].append([p, uri])
        W.ns[p] = uri

    def foreign_att(self, n, W):
        r = self.r
        ps = [p for p, u in W.ns.items() if u != RN and p]
        a = att("lang", r.choice(["en", ""]), "xml") if not ps or r.random() < 0.3 else att(r.choice(["name", "ns", "href", "x", "combine"]), r.choice(["v", "", "d0"]), r.choice(ps))
        if not any(x["p"] == a["p"] and x["n"] == a["n"] for x in n["a"]) and not any(x["n"] == a["n"] and W.ns.get(x["p"]) == W.ns.get(a["p"]) for x in n["a"] if x["p"]):
            n["a"].append(a)

    def setatt(self, n, name, v):
        n["a"] = [x for x in n["a"] if not (x["p"] == "" and x["n"] == name)] + [att(name, v)]

    def setns(self, n, W, u):
        self.setatt(n, "ns", u)
        W.uri = u

    def setlib(self, n, W, u):
        self.setatt(n, "datatypeLibrary", u)
        W.lib = u

    def ns_of(self, W):
        return self.inh if W.uri is None else W.uri

    def pad(self, s):
        """white space around what is trimmed"""
        r = self.r
        return r.choice(["", " ", "  "]) + s + r.choice([" ", ""]) if r.random() < self.o["pad"] else s

    def fill(self, n, kids, W):
        """the children of n, and what may stand between them"""
        out = []
        for k in kids + [None]:
            while self.r.random() < self.o["foreign"]:
                out.append(self.foreign(W))
            if k is not None:
                out.append(k)
        n["ch"] = out
        return n

    def foreign(self, V, depth=0):
        """an element that is not of RELAX NG"""
        r = self.r
        W = V.copy()
        n = {"k": "e", "n": r.choice(["doc", "text", "element", "p", "start", "define", "name"]), "p": "", "d": [], "a": [], "ch": [], "at": self.at.next(), "r": []}
        ps = [p for p, u in W.ns.items() if u != RN]
        if ps and r.random() < 0.6:
            n["p"] = r.choice(ps)
        elif W.ns.get("", "") == RN and r.random() < 0.7:
            u = r.choice(["urn:note", "urn:note", ""])
            n["d"].append(["", u])
            W.ns[""] = u
        elif W.ns.get("", "") == RN:
            n["p"] = "f"
            n["d"].append(["f", "urn:note"])
            W.ns["f"] = "urn:note"
        if r.random() < 0.3:
            n["a"].append(att("name", r.choice(["a b", "x", ""])))
        for _ in range(r.choice([0, 0, 1, 2]) if depth < 2 else 0):
            if r.random() < 0.4:
                n["ch"].append({"k": "t", "c": codes(r.choice(["some text", " ", "x < y"]))})
            elif r.random() < 0.5:
                n["ch"].append(self.foreign(W, depth + 1))
            else:
                x, _ = self.el(r.choice(["text", "empty", "define", "bogus"]), W)
                n["ch"].append(x)
        return n

    def text(self, s):
        """text, in one or several pieces"""
        r = self.r
        if not s:
            return [{"k": "o"}] if r.random() < 0.05 else []
        if r.random() < self.o["comments"]:
            i = r.randint(0, len(s))
            return self.text(s[:i]) + [{"k": "o"}] + self.text(s[i:])
        return [{"k": "t", "c": codes(s)}]

    # -- name classes
    def nc(self, c, V, attr):
        """name class elements (choices may become several)"""
        k = c[0]
        r = self.r
        if k in ("name", "bad"):
            n, W = self.el("name", V)
            if k == "bad":
                s = c[1] + ":" + c[2]
            else:
                s = self.qname(c, n, W, True)
            n["ch"] = self.text(self.pad(s))
            return [n]
        if k == "alt":
            if r.random() < 0.5:
                ks = self.alts(c)
            else:
                ks = c[1:]
            n, W = self.el("choice", V)
            return [self.fill(n, [y for x in ks for y in self.nc(x, W, attr)], W)]
        if k == "badns":
            n, W = self.el("nsName", V)
            x, _ = self.el("name", W)
            n["ch"] = [x]
            return [n]
        n, W = self.el("anyName" if k == "anyName" else "nsName", V)
        if k == "nsName" and (self.ns_of(W) != c[1] or r.random() < 0.2):
            self.setns(n, W, c[1])
        x = c[-1]
        if x != NONE:
            e, X = self.el("except", W)
            ks = self.alts(x) if x[0] == "alt" and r.random() < 0.7 else [x]
            self.fill(e, [z for y in ks for z in self.nc(y, X, attr)], X)
            self.fill(n, [e], W)
        else:
            self.fill(n, [], W)
        return [n]

    def alts(self, c):
        return self.alts(c[1]) + self.alts(c[2]) if c[0] == "alt" else [c]

    def qname(self, c, n, W, inherits):
        """the text for the name c in the element n, which may get an ns attribute for it.
        inherits: the ns of ancestors counts"""
        r = self.r
        ps = [p for p, u in W.ns.items() if u == c[1] and p] + (["xml"] if c[1] == XML else [])
        if ps and r.random() < 0.4:
            return r.choice(ps) + ":" + c[2]
        own = [a for a in n["a"] if a["p"] == "" and a["n"] == "ns"]
        now = self.ns_of(W) if inherits else (W.uri if own else "")
        if now != c[1] or r.random() < 0.05:
            self.setns(n, W, c[1])
        return c[2]

    def named(self, name, c, V, attr):
        """an element or attribute; (node, scope, the children that its name takes)"""
        r = self.r
        n, W = self.el(name, V)
        if c[0] in ("name", "bad") and r.random() > self.o["names"]:
            s = c[1] + ":" + c[2] if c[0] == "bad" else self.qname(c, n, W, not attr)
            n["a"].append(att("name", self.pad(s)))
            return n, W, []
        return n, W, self.nc(c, W, attr)

    # -- patterns
    def several(self, p, V):
        """the pattern, as children that are grouped by what they are in"""
        if p[0] == "group" and p[1] and self.r.random() > self.o["wrap"] * 2:
            return [y for x in p[1] for y in self.pat(x, V)]
        return self.pat(p, V)

    def pat(self, p, V):
        """[node]"""
        r = self.r
        k = p[0]
        if r.random() < self.o["wrap"] / 2:
            n, W = self.el(r.choice(["group", "choice", "interleave"]), V)
            return [self.fill(n, self.pat(p, W), W)]
        if k in ("empty", "notAllowed", "text"):
            n, W = self.el(k, V)
            return [self.fill(n, [], W)]
        if k in ("choice", "group", "interleave"):
            n, W = self.el(k, V)
            ps = p[1]
            if len(ps) > 2 and r.random() < 0.15:
                i = r.randint(1, len(ps) - 2)
                ps = r.choice([[[k, ps[:i + 1]]] + ps[i + 1:], ps[:i] + [[k, ps[i:]]]])
            return [self.fill(n, [y for x in ps for y in self.pat(x, W)], W)]
        if k in ("optional", "zeroOrMore", "oneOrMore", "mixed", "list"):
            n, W = self.el(k, V)
            return [self.fill(n, self.several(p[1], W), W)]
        if k in ("element", "attribute"):
            n, W, ks = self.named(k, p[1], V, k == "attribute")
            if k == "element":
                ks += self.several(p[2], W)
            elif p[2] != ["text"] or r.random() < 0.5:
                ks += self.pat(p[2], W)
            return [self.fill(n, ks, W)]
        if k in ("ref", "parentref"):
            n, W = self.el("ref" if k == "ref" else "parentRef", V)
            n["a"].append(att("name", self.pad("start" if p[1] == "\\start" else p[1])))
            return [self.fill(n, [], W)]
        if k == "value":
            n, W = self.el("value", V)
            if p[1] != "token" or r.random() < 0.5:
                self.typ(p[1], n, W)
            n["ch"] = self.text(uncodes(p[2]))
            return [n]
        if k == "data":
            n, W = self.el("data", V)
            self.typ(p[1], n, W)
            ks = []
            for name, v in p[2]:
                x, X = self.el("param", W)
                x["a"].append(att("name", self.pad(name)))
                if name == "pattern":
                    x["r"] = v
                    v = codes(re_text(v))
                x["ch"] = self.text(uncodes(v))
                ks.append(x)
            if p[3] != NONE:
                x, X = self.el("except", W)
                e = p[3]
                es = e[1] if e[0] == "choice" and e[1] and r.random() < 0.6 else [e]
                ks.append(self.fill(x, [z for y in es for z in self.pat(y, X)], X))
            return [self.fill(n, ks, W)]
        if k == "external":
            n, W = self.el("externalRef", V)
            self.refer(n, W, p[1], p[2] if len(p) > 2 else None)
            return [self.fill(n, [], W)]
        if k == "grammar":
            n, W = self.el("grammar", V)
            return [self.fill(n, self.items(p[1], W), W)]
        raise ValueError(p)

    def typ(self, t, n, W):
        if t.startswith("xsd:"):
            lib, name = XSD, t[4:]
        elif t in ("string", "token"):
            lib, name = "", t
        elif t.startswith("lib "):
            _, lib, name = t.split(" ")
        else:
            lib, name = W.lib, t
        if W.lib != lib:
            self.setlib(n, W, lib)
        n["a"].append(att("type", self.pad(name)))

    def refer(self, n, W, to, inherit):
        """a reference from n to the file `to'"""
        r = self.r
        path = to.path if isinstance(to, File) else to
        if inherit and inherit[0] == "uri":
            self.setns(n, W, inherit[1])
        frm = self.f.path if W.base is None else self.where(W.base)
        n["a"].append(att("href", rnc.relref(frm.lstrip("/"), path.lstrip("/"), r)))
        self.passed.setdefault(id(to), self.ns_of(W))

    # -- grammars
    def items(self, items, V, over=False):
        r = self.r
        out = []
        for d in items:
            if d[0] == "define":
                start = d[1] == "start"
                n, W = self.el("start" if start else "define", V)
                if not start:
                    n["a"].append(att("name", self.pad("start" if d[1] == "\\start" else d[1])))
                if ITEMS[d[2]]:
                    n["a"].append(att("combine", self.pad(ITEMS[d[2]])))
                out.append(self.fill(n, self.pat(d[3], W) if start else self.several(d[3], W), W))
            elif d[0] == "div":
                n, W = self.el("div", V)
                out.append(self.fill(n, self.items(d[1], W, over), W))
            else:
                n, W = self.el("include", V)
                self.refer(n, W, d[1], d[3] if len(d) > 3 else None)
                out.append(self.fill(n, self.items(d[2], W, True), W))
        return out

    def run(self):
        self.r.random()
        b = self.f.body
        # the root must not be wrapped
        w, self.o["wrap"] = self.o["wrap"], 0 if b[0] == "grammar" else self.o["wrap"]
        if b[0] == "grammar":
            n, W = self.el("grammar", Env())
            self.o["wrap"] = w
            return self.fill(n, self.items(b[1], W), W)
        return self.pat(b, Env())[0]


def att(n, v, p=""):
    return {"p": p, "n": n, "c": codes(v), "s": v}


# ---- text --------------------------------------------------------------------------------------

def esc(c, r, attr=None):
    """one character of text, or of an attribute value in the quotes attr"""
    o = ord(c)
    if r.random() < 0.02:
        return r.choice(["&#%d;" % o, "&#x%x;" % o, "&#x0%X;" % o])
    if c == "&":
        return r.choice(["&amp;", "&#38;"])
    if c == "<":
        return r.choice(["&lt;", "&#60;"])
    if c == ">":
        return "&gt;"
    if c == attr:
        return {'"': "&quot;", "'": "&apos;"}[c]
    if c == "\r" or (attr and c in "\n\t"):
        return "&#%d;" % o
    if attr and c == " " and r.random() < 0.05:
        return r.choice(["\n", "\t", "\r\n"])
    if c == "\n" and r.random() < 0.2:
        return "\r\n"
    return c


class Layout:
    def __init__(self, r, style="mix"):
        self.r, self.style = r, style
        self.out, self.pos, self.ranges = [], 0, {}

    def put(self, s):
        self.out.append(s)
        self.pos += len(s)

    def quoted(self, s):
        q = self.r.choice("\"\"'")
        self.put(q + "".join(esc(c, self.r, q) for c in s) + q)

    def space(self, must=True):
        r = self.r
        if not must and (self.style == "plain" or r.random() < 0.85):
            return
        self.put(" " if self.style == "plain" or r.random() < 0.85 else r.choice(["\n", "\t", "  ", "\r\n  "]))

    def other(self):
        self.put(self.r.choice(["<!-- a comment -->", "<!---->", "<?pi?>", "<?p <element> ?>", "<!-- <text/> & -->"]))

    def between(self):
        """between the children of an element"""
        r = self.r
        if self.style == "plain":
            return
        while r.random() < 0.45:
            k = r.random()
            if k < 0.75:
                self.put(r.choice(["\n", "\n  ", " ", "\r\n", "\t"]))
            elif k < 0.9:
                self.other()
            else:
                self.put(r.choice(["<![CDATA[ ]]>", "&#32;", "<![CDATA[]]>"]))

    def name(self, p, n):
        return p + ":" + n if p else n

    def node(self, n):
        r = self.r
        if n["k"] == "o":
            self.other()
            return
        if n["k"] == "t":
            s = uncodes(n["c"])
            if "]]>" not in s and "\r" not in s and r.random() < 0.1:
                self.put("<![CDATA[" + s + "]]>")
            elif "]]>" not in s and "\r" not in s and len(s) > 1 and r.random() < 0.05:
                i = r.randint(0, len(s))
                self.put("".join(esc(c, r) for c in s[:i]) + "<![CDATA[" + s[i:] + "]]>")
            else:
                self.put("".join(esc(c, r) for c in s))
            return
        a = self.pos
        q = self.name(n["p"], n["n"])
        self.put("<" + q)
        parts = [("d", x) for x in n["d"]] + [("a", x) for x in n["a"]]
        if self.style != "plain":
            r.shuffle(parts)
        for k, x in parts:
            self.space()
            if k == "d":
                self.put("xmlns:" + x[0] if x[0] else "xmlns")
            else:
                self.put(self.name(x["p"], x["n"]))
            self.space(False)
            self.put("=")
            self.space(False)
            self.quoted(x[1] if k == "d" else x["s"])
        self.space(False)
        texty = any(x["k"] == "t" for x in n["ch"]) or n["n"] in ("value", "param", "name")
        if not n["ch"] and r.random() < 0.8:
            self.put("/>")
            self.ranges[n["at"]] = (a, self.pos)
            return
        self.put(">")
        self.ranges[n["at"]] = (a, self.pos)
        for x in n["ch"]:
            if not texty:
                self.between()
            self.node(x)
        if not texty:
            self.between()
        self.put("</" + q)
        self.space(False)
        self.put(">")

    def run(self, root):
        r = self.r
        if self.style != "plain":
            self.put(r.choice(["", "", "", "\ufeff", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" ?>\n", "<?xml version=\"1.0\" standalone='yes'?>"]))
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                r.choice([self.other, lambda: self.put("\n")])()
        self.node(root)
        if self.style != "plain":
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                r.choice([self.other, lambda: self.put("\n")])()
        return "".join(self.out), self.ranges


def layout(root, r, style="mix"):
    return Layout(r, style).run(root)


def table(root):
    """the characters of the document"""
    out = set()

    def go(n):
        if n["k"] == "t":
            out.update(n["c"])
        if n["k"] == "e":
            for a in n["a"]:
                out.update(a["c"])
            for x in n["ch"]:
                go(x)
    go(root)
    return {str(c): chr(c) for c in out} or {"32": " "}


# ---- edits -------------------------------------------------------------------------------------

def nodes(root):
    """[(parent, index, node)], without the root"""
    out = []

    def go(n):
        for i, x in enumerate(n["ch"]):
            out.append((n, i, x))
            if x["k"] == "e":
                go(x)
    go(root)
    return out


ALL = ["element", "attribute", "group", "interleave", "choice", "optional", "zeroOrMore", "oneOrMore", "list", "mixed", "ref", "parentRef", "empty", "text",
       "value", "data", "notAllowed", "externalRef", "grammar", "param", "except", "define", "start", "div", "include", "name", "anyName", "nsName", "bogus"]
VALUES = ["", " ", "d0", "a", "x y", "1x", "p:a", "start", "choice", "interleave", "string", "token", "xsd:int", ":", "a:", ":a", "a:b:c", "-", "\u00e9", "zz", "xmlns"]


def edit(r, f, at):
    """change the document of the file f in one place; says what was done"""
    root = f.toks
    if root["k"] != "e":
        return "none"
    ns = nodes(root)
    els = [x for x in ns if x[2]["k"] == "e"]
    every = [root] + [x[2] for x in els]

    def fresh(n):
        """a copy, with new numbers"""
        n = dict(n)
        if n["k"] == "e":
            n["at"] = at.next()
            n["ch"] = [fresh(x) for x in n["ch"]]
            n["a"] = [dict(a) for a in n["a"]]
            n["d"] = [list(d) for d in n["d"]]
        return n
    k = r.choice(["delete", "delete", "double", "rename", "swap", "noatt", "att", "newatt", "insert", "insert", "move", "unwrap", "wrap", "prefix", "cut", "text", "empty", "spell", "spell", "child"])
    if k in ("delete", "double", "swap", "move", "unwrap") and not ns:
        return "none"
    if k == "delete":
        p, i, n = r.choice(els or ns)
        del p["ch"][i]
    elif k == "double":
        p, i, n = r.choice(els or ns)
        p["ch"].insert(r.randint(0, len(p["ch"])), fresh(n))
    elif k == "rename":
        n = r.choice(every)
        n["n"] = r.choice(ALL)
    elif k == "swap":
        p, i, n = r.choice(ns)
        r.shuffle(p["ch"])
    elif k == "noatt":
        n = r.choice([n for n in every if n["a"]] or [None])
        if n is None:
            return "none"
        del n["a"][r.randrange(len(n["a"]))]
    elif k == "att":
        n = r.choice([n for n in every if n["a"]] or [None])
        if n is None:
            return "none"
        i = r.randrange(len(n["a"]))
        n["a"][i] = att(n["a"][i]["n"], r.choice(VALUES), n["a"][i]["p"])
    elif k == "newatt":
        n = r.choice(every)
        n["a"].append(att(r.choice(["name", "ns", "combine", "type", "href", "name"]), r.choice(VALUES)))
    elif k in ("insert", "empty"):
        n = r.choice(every)
        ps = [n["p"]] if n["p"] or r.random() < 0.9 else [""]
        x = {"k": "e", "n": r.choice(ALL), "p": r.choice(ps), "d": [], "a": [], "ch": [], "at": at.next(), "r": []}
        for a, p in (("name", 0.4), ("href", 0.05), ("type", 0.15), ("combine", 0.05)):
            if r.random() < p:
                x["a"].append(att(a, r.choice(VALUES)))
        if r.random() < 0.3:
            x["ch"].append({"k": "t", "c": codes(r.choice(["a", " b ", "p:c", "1"]))})
        elif r.random() < 0.5:
            y = dict(x, n=r.choice(["text", "empty", "ref", "value", "name"]), at=at.next(), a=[], ch=[])
            x["ch"].append(y)
        n["ch"].insert(r.randint(0, len(n["ch"])), x)
    elif k == "move":
        p, i, n = r.choice(els or ns)
        del p["ch"][i]
        q = r.choice([root] + [x[2] for x in nodes(root) if x[2]["k"] == "e" and x[2] is not n])
        if any(x[2] is q for x in (nodes(n) if n["k"] == "e" else [])) or q is n:
            q = p
        q["ch"].insert(r.randint(0, len(q["ch"])), n)
    elif k == "unwrap":
        p, i, n = r.choice(els or ns)
        p["ch"][i:i + 1] = n.get("ch", [])
    elif k == "wrap":
        if not els:
            return "none"
        p, i, n = r.choice(els)
        p["ch"][i] = {"k": "e", "n": r.choice(ALL), "p": n["p"], "d": [list(d) for d in n["d"]], "a": [], "ch": [n], "at": at.next(), "r": []}
    elif k == "prefix":
        n = r.choice(every)
        if n["d"] and r.random() < 0.5:
            del n["d"][r.randrange(len(n["d"]))]
        else:
            n["p"] = r.choice(["", "nope", "p", "r"])
    elif k == "text":
        n = r.choice(every)
        n["ch"].insert(r.randint(0, len(n["ch"])), {"k": "t", "c": codes(r.choice(["x", " ", "1 2"]))})
    elif k == "spell":
        # one more character in a name, or one less
        c = [(n, a) for n in every for a in n["a"] if a["n"] in ("name", "type", "combine", "href", "ns", "datatypeLibrary") and not a["p"]]
        c += [(n, x) for n in every if n["n"] in ("name", "value", "param") for x in n["ch"] if x["k"] == "t"]
        if not c:
            return "none"
        n, x = r.choice(c)
        v = list(x["c"])
        i = r.choice([0, 0, len(v), r.randint(0, len(v))])
        if r.random() < 0.8:
            v.insert(i, ord(r.choice("-1.:_ a\u00b7\u00d7\u0301\u00e9#/")))
        elif v:
            del v[min(i, len(v) - 1)]
        if x.get("k") == "t":
            x["c"] = v
            if n["n"] == "param":
                n["r"] = []
        else:
            n["a"][[y is x for y in n["a"]].index(True)] = att(x["n"], "".join(map(chr, v)))
    elif k == "child":
        # an element where there is only text
        c = [n for n in every if n["n"] in ("name", "value", "param")]
        if not c:
            return "none"
        n = r.choice(c)
        x = {"k": "e", "n": r.choice(["name", "text", "value", "empty", "x"]), "p": n["p"] if r.random() < 0.6 else "", "d": [], "a": [], "ch": [],
             "at": at.next(), "r": []}
        if r.random() < 0.3:
            x["d"] = [[x["p"], r.choice(["urn:other", ""])]] if x["p"] == "" else [[x["p"], "urn:other"]]
        n["ch"].insert(r.randint(0, len(n["ch"])), x)
    elif k == "cut":
        f.cut = True
    return k


def finish(f, r, style):
    """text and ranges of the file f from its document"""
    if f.toks["k"] != "e":
        return
    f.text, f.ranges = layout(f.toks, r, style)
    if getattr(f, "cut", False):
        # what is left of it is no document
        end = f.text.rindex("</") if f.text.rstrip().endswith(">") and "</" in f.text else len(f.text) - 1
        i = r.randint(1, max(1, end))
        f.text = f.text[:i]
        f.toks = {"k": "bad"}
