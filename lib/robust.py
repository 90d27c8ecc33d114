"""Arbitrary texts as schemas and documents, and calls after an error -> spec/TraceApi.tla."""
import json, os, re
import base, compose, docs, fam, rdoc, schema, xmlsyn, dtgen

ODD = ["\u00e9", "\u3042", "\U0001F600", "\u0301", "\ufeff", "\x00", "\x01", "\x7f", "\u2028", "\r", "\n", "\t", " ", "\r\n", "\ufffe", "\\", "'", '"', "&", "<", ">", "%", ";", "#",
       "-", "--", "]]>", "<![CDATA[", "<!--", "-->", "<?", "?>", "<!DOCTYPE", "<!ENTITY", "&#", "&#x", "&#x0;", "&#xD800;", "&#x110000;", "&#99999999999999999999;", "&#-1;", "&#x;", "&;",
       "&a;", "\\x{", "\\x{0}", "\\x{41}", "\\x{110000}", "\\x{FFFFFFFFFFFFFFFFF}", "\\x{D800}", "{", "}", "(", ")", "[", "]", "|", "*", "+", "?", ",", "~", ">>", "|=", "&=", "=", '"""', "'''",
       "#", "##", "\\", ":", "::", "xml:", "xmlns", "xmlns:", "xmlns=''", "xmlns:a=''", "/", "/>", "</", "</>", "< ", "<a", "<a b", "<a b=", "<a b='", "<a b='<'", "0", "99999999999999999999", "-1", "1e400",
       "\u00a0", "\u0085", "$", "^", "@", "!", "`", "\uffff", "\U0010ffff", "<a:b:c/>", "a:b:c", ":a", "a:", "-a", ".", "..", "//", "http://", "%", "%a;", "[a=b]"]
WORDS = ["attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar", "include", "inherit", "list", "mixed", "namespace", "notAllowed", "parent", "start", "string",
         "text", "token", "a", "xsd:", "xsd:int", "xsd:string", "{pattern='('}", "{ pattern = \"[\" }", "{minLength='-1'}", "{length='1e9'}", "local", "inherit =", "except", "name", "nsName",
         "anyName", "value", "data", "param", "ref", "parentRef", "externalRef", "href='#'", "ns=''", "combine='x'", "datatypeLibrary='#'", "href=''", "type=''"]


def mangle(r, s, times=None, other=""):
    """a few changes to a text, anywhere in it"""
    for _ in range(times or r.choice([1, 1, 1, 2, 3, 6])):
        n = len(s)
        i = r.randint(0, n)
        j = min(n, i + r.choice([1, 1, 1, 2, 3, 8, 30]))
        k = r.random()
        if k < 0.25:
            s = s[:i] + s[j:]
        elif k < 0.45:
            s = s[:i] + r.choice(ODD) + s[i:]
        elif k < 0.6:
            s = s[:i] + r.choice(ODD) + s[j:]
        elif k < 0.68:
            s = s[:i] + r.choice(WORDS) + s[i:]
        elif k < 0.76:
            s = s[:j] + s[i:]
        elif k < 0.82:
            s = s[:i]
        elif k < 0.86:
            s = s[i:]
        elif k < 0.92:
            a, b = sorted((r.randint(0, n), r.randint(0, n)))
            s = s[:i] + s[a:min(b, a + 200)] + s[i:]
        elif k < 0.96 and other:
            a = r.randint(0, len(other))
            s = s[:i] + other[a:]
        else:
            # a token for another
            ts = list(re.finditer(r"\w+|[^\w\s]", s))
            if len(ts) > 1:
                x, y = r.choice(ts), r.choice(ts)
                s = s[:x.start()] + y.group() + s[x.end():]
    return s


class Input:
    def __init__(self, cid, syntax, main, files, texts, tag, valid=False):
        self.id, self.syntax, self.main, self.files, self.texts, self.tag = cid, syntax, main, files, texts, tag

    def key(self):
        return {"files": self.files, "main": self.main, "docs": self.texts}


def some_docs(r, n=3):
    out = []
    for j in fam.structure(r, 2) + fam.malformed(r, 2) + fam.entities(r, 2) + fam.namespaces(r, 2):
        out += [d.text for d in j.docs]
    return out


def nested(r):
    """(syntax, files, documents): things within things, moderately deep"""
    n = r.choice([20, 60, 150, 300])
    kind = r.choice(["doc", "parens", "elements", "groups", "annot", "names", "xml", "divs", "chain", "includes", "grammars", "lists", "strings", "opts", "entities", "cells", "regex", "except"])
    docs_ = ["<a>" * n + "</a>" * n, "<a/>", "<b x='1'>t</b>"]
    s, syntax, files = "", "rnc", {}
    if kind == "doc":
        n = r.choice([500, 2000, 4000])
        s = "start = d\nd = element * { attribute * { text }*, (d | text)* }"
        docs_ = ["<a>" * n + "</a>" * n, "<a>" * n, "<a x='1'>t" * n + "</a>t" * (n - 1) + "</a>", "<a>" * n + "</b>" * n, "<!-- -->" * n + "<a/>", "<a " + " ".join("x%d=''" % i for i in range(n)) + "/>"]
    elif kind == "parens":
        n = min(n, 150)
        s = "start = element a { " + "(" * n + "text" + ")" * n + " }"
    elif kind == "elements":
        s = "start = " + "element a { " * n + "empty" + " }" * n
    elif kind == "groups":
        op = r.choice([", ", " | ", " & "])
        s = "start = element a { " + op.join(["b%d" % i for i in range(n)]) + " }\n" + "".join("b%d = element b%d { empty }\n" % (i, i) for i in range(n))
        docs_ += ["<a>" + "".join("<b%d/>" % i for i in (range(n) if op == ", " else [1])) + "</a>"]
    elif kind == "annot":
        s = "start = [ " + "x [ " * n + "\"t\" " + " ]" * n + " ] element a { empty }"
    elif kind == "names":
        n = min(n, 150)
        s = "start = element " + "(" * n + "a" + ")" * n + " { empty }"
    elif kind == "xml":
        syntax = "rng"
        g = r.choice(["group", "choice", "interleave", "optional", "zeroOrMore", "oneOrMore", "mixed"])
        s = "<element name='a' xmlns='http://relaxng.org/ns/structure/1.0'>" + "<%s>" % g * n + "<empty/>" + "</%s>" % g * n + "</element>"
    elif kind == "divs":
        if r.random() < 0.5:
            s = "div { " * n + "start = element a { empty }" + " }" * n
        else:
            syntax = "rng"
            s = "<grammar xmlns='http://relaxng.org/ns/structure/1.0'>" + "<div>" * n + "<start><element name='a'><empty/></element></start>" + "</div>" * n + "</grammar>"
    elif kind == "chain":
        s = "start = d0\n" + "".join("d%d = %s\n" % (i, r.choice(["d%d", "(d%d?)", "(d%d | notAllowed)", "(empty, d%d)"]) % (i + 1)) for i in range(n)) + "d%d = element a { start? }\n" % n
    elif kind == "includes":
        n = min(n, 60)
        files = {"f%d.rnc" % i: "include \"f%d.rnc\"" % (i + 1) for i in range(n)}
        files["f%d.rnc" % n] = "start = element a { text }"
        s = 'include "f0.rnc"'
    elif kind == "grammars":
        n = min(n, 60)
        s = "grammar { start = " * n + "element a { empty }" + " }" * n
    elif kind == "lists":
        s = "start = element a { list { " + ", ".join(["token"] * n) + " } }"
        docs_ += ["<a>" + "x " * n + "</a>", "<a>" + "x " * (n + 1) + "</a>"]
    elif kind == "strings":
        s = "start = element a { " + " ~ ".join(['"x"'] * n) + " }"
        docs_ += ["<a>" + "x" * n + "</a>"]
    elif kind == "opts":
        s = "start = element a { " + "(" * 12 + "element b { empty }" + ")*)+" * 6 + ")?" * 0 + ")*" * 6 + " }"
        s = s.replace(")*)+", ")*)+")
        docs_ += ["<a>" + "<b/>" * n + "</a>"]
    elif kind == "entities":
        s = "start = element * { attribute * { text }*, text }"
        n = r.choice([5, 40, 120])
        k = r.choice([1, 2, 10])
        d = "<!DOCTYPE a [<!ENTITY e0 'x'>" + "".join("<!ENTITY e%d '%s'>" % (i + 1, ("&e%d;" % i) * k) for i in range(n)) + "]>"
        docs_ = [d + "<a>&e%d;</a>" % r.randint(0, n), d + "<a b='&e%d;'/>" % n, "<!DOCTYPE a [<!ENTITY a '&b;'><!ENTITY b '&a;'>]><a>&a;</a>", "<!DOCTYPE a [<!ENTITY a '&a;'>]><a xmlns='&a;'/>"]
    elif kind == "cells":
        s = "start = element a { " + ", ".join("attribute x%d { text }?" % i for i in range(min(n, 60))) + " }"
        docs_ += ["<a " + " ".join("x%d=''" % i for i in range(min(n, 60))) + "/>"]
    elif kind == "regex":
        s = "start = element a { xsd:string { pattern = \"%s\" } }" % ("(" * n + "a" + ")*" * n)
        docs_ += ["<a>" + "a" * n + "b</a>"]
    elif kind == "except":
        n = min(n, 100)
        s = "start = element a { " + "token - (" * n + '"x"' + ")" * n + " }"
    files = dict(files, **{"main.rnc": s})
    return Input("", syntax, "main.rnc", files, docs_, "nested " + kind)


def inputs(r, n, prefix):
    out = []
    texts = some_docs(r)
    prev = ""
    while len(out) < n:
        k = r.random()
        cid = "%s%d" % (prefix, len(out))
        if k < 0.12:
            x = nested(r)
            x.id = cid
            if r.random() < 0.3:
                x.texts = [mangle(r, t) for t in x.texts]
            if r.random() < 0.2:
                x.files[x.main] = mangle(r, x.files[x.main])
        else:
            sx = r.choice(["rnc", "rng"])
            c = compose.make(r, cid, syntax=sx, types=compose.TYPES, facets=compose.facets, wild=0.3, width=2, ndefs=2, faults=r.choice([0, 0, 0, 1]), edits=r.choice([0, 0, 0, 1]))
            files = c.texts()
            tag = "as generated"
            if r.random() < 0.8:
                p = r.choice(sorted(files))
                files[p] = mangle(r, files[p], other=prev)
                prev = files[p]
                tag = "schema changed"
            if r.random() < 0.05:
                # the wrong syntax
                sx = "rng" if sx == "rnc" else "rnc"
            ds = [r.choice(texts) for _ in range(4)]
            ds = [mangle(r, t, other=r.choice(texts)) if r.random() < 0.8 else t for t in ds] + [with_names(r, c), mangle(r, with_names(r, c))]
            x = Input(cid, sx, c.main, files, ds, tag)
        out.append(x)
    # any schema will do for documents that are not XML
    any_ = "start = any any = element * { (attribute * { text } | text | any)* }"
    for i in range(0, n // 8):
        ds = [mangle(r, r.choice(texts), other=r.choice(texts)) for _ in range(10)]
        ds += ["".join(r.choice(ODD) for _ in range(r.randint(0, 8))) for _ in range(4)]
        out.append(Input("%sd%d" % (prefix, i), "rnc", "main.rnc", {"main.rnc": any_}, ds, "documents changed"))
    return out


def with_names(r, c):
    """a document of the names of a schema"""
    els = [n for n in c.names] or [("", "a")]
    atts = [n for n in c.atts] or [("", "x")]

    def go(d):
        u, l = r.choice(els)
        a = "".join(" %s='%s'" % (n, r.choice(["", "x", "1", "a b"])) for n in sorted(set(x[1] for x in r.sample(atts, r.randint(0, len(atts))) if not x[0])))
        return "<%s xmlns='%s'%s>%s</%s>" % (l, u, a, "".join(go(d - 1) if r.random() < 0.6 else r.choice(["x", "1", " "]) for _ in range(r.randint(0, 3))) if d else "", l)
    return go(3)


def run(rep, cases, wd, limit_ms=20000):
    hs = [{"id": c.id, "syntax": c.syntax, "main": c.main, "files": c.files, "docs": c.texts, "diag": True, "poke": True} for c in cases]
    results = base.run_cases(hs, wd, limit_ms)
    recs, idx = [], {}
    n_ok = n_err = 0
    for c in cases:
        r = results[c.id]

        def rec(i, calls, most):
            recs.append({"id": "%s/%s" % (c.id, i), "calls": calls, "most": most})
            idx["%s/%s" % (c.id, i)] = (c, r, i)
        if "crash" in r or "timeout" in r:
            rec("process", [["compile", "crash" if "crash" in r else "timeout"]], 0)
            continue
        k = r["compile"]
        calls = [["compile", "panic" if k.get("panic") else "ok" if k["ok"] else "err"]]
        if calls[0][1] == "err":
            n_err += 1
            calls.append(["render", "panic" if "panic" in k["diag"] or not k["diag"]["text"].strip() else "done"])
            calls.append(["compile", "panic" if k.get("again_panic") else k["again"]])
        rec("schema", calls, 0)
        n_ok += k["ok"]
        for i, d in enumerate(r.get("docs", [])):
            calls = [["compile", "ok"], ["new", "done"]] + [["next", w, m] for w, m in d["calls"]]
            if d.get("diag"):
                at = next((n for n, x in enumerate(calls) if x[0] == "next" and x[1] == "err"), len(calls) - 1)
                # after the first of the errors
                calls[at:at + 1] = [["next", "err", 1], ["render", "panic" if "panic" in d["diag"] else "done"]] + ([["next", "err", calls[at][2] - 1]] if calls[at][2] > 1 else [])
            if d.get("panic") and calls[-1][1] != "panic" and not any(x[1] == "panic" for x in calls):
                calls.append(["render", "panic"])
            rec(i, calls, len(c.texts[i]) + 2)
    cp = os.path.join(wd, "api.ndjson")
    base.ndjson(cp, recs)
    t = base.tlc("TraceApi", wd, {"CASES": cp})
    rep.add_tlc(t)
    bad = {}
    for m in t["marks"]:
        x = re.match(r'<<\s*"@@MISMATCH",\s*"([^"]*)",\s*(.*)>>$', m, re.S)
        if not x:
            raise base.ToolError("unreadable mark " + m)
        bad.setdefault(x.group(1), x.group(2))
    for i, why in bad.items():
        c, r, n = idx[i]
        d = r["docs"][n] if isinstance(n, int) else None
        text = c.texts[n] if isinstance(n, int) else None
        obs = d or {x: r.get(x) for x in ("compile", "crash", "timeout")}
        rep.violation("%s: the specification does not allow %s; schema %s; document %s; observed %s"
                      % (c.tag, why[:200], json.dumps(c.files)[:1200], json.dumps(text)[:600], json.dumps(obs)[:600]),
                      {"key": {"files": c.files, "main": c.main, "doc": text}, "why": why, "tag": c.tag, "observed": obs})
    if not t["undecided"] and t["distinct"] < len(recs):
        raise base.ToolError("TLC visited only %d states for %d traces" % (t["distinct"], len(recs)))
    rep.validated += 0 if t["undecided"] else len(recs)
    e = rep.extra
    for k, v in (("schemas_compiled", n_ok), ("schemas_rejected", n_err), ("documents", len(recs) - len(cases))):
        e[k] = e.get(k, 0) + v
    for c in cases[:2]:
        rep.sample({"files": c.files, "docs": c.texts[:1], "tag": c.tag})
    return bad, idx, results
