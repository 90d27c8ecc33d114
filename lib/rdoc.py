"""Abstract documents: token lists as in spec/RngDoc.tla, and their rendering
to XML text with the byte range of every token and piece."""
import random

ENTITY_CHARS = {"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": '"'}


def codes(s):
    return [ord(c) for c in s]


def uncodes(a):
    return "".join(map(chr, a))


def S(s):
    return ["s", codes(s)]


class Style:
    """how to spell a document; plain() is the canonical spelling"""
    def __init__(self, rnd=None, tagws=0.0, quote=0.5, charref=0.0, hexref=0.5):
        self.r = rnd or random.Random(0)
        self.tagws, self.quote = tagws, quote

    def ws(self, need):
        if self.r.random() < self.tagws:
            return self.r.choice([" ", "\n", "\t", "  ", "\r\n", " \n "])
        return " " if need else ""


class Plain(Style):
    def __init__(self):
        super().__init__(random.Random(1), 0.0, 0.0)


def esc(s, q=None):
    o = []
    for c in s:
        if c == "&":
            o.append("&amp;")
        elif c == "<":
            o.append("&lt;")
        elif c == ">" and q is None:
            o.append("&gt;")
        elif q is not None and c == q:
            o.append("&quot;" if q == '"' else "&apos;")
        else:
            o.append(c)
    return "".join(o)


def piece_text(p, q=None):
    if p[0] == "s":
        return esc(uncodes(p[1]), q)
    if p[0] == "ref":
        return "&" + p[2] + ";"
    if p[0] == "ent":
        return "&" + p[1] + ";"
    if p[0] == "num":
        # p[2], when present, is the spelling
        return p[2] if len(p) > 2 else "&#%d;" % p[1]
    if p[0] == "bad":
        return p[1] if len(p) > 1 else "&;"
    raise ValueError(p)


def qn(prefix, local):
    return prefix + ":" + local if prefix else local


# what a DTD may contain that does not matter
DTD_MISC = ["<!-- <!ENTITY e1 'no'> -->", "<?pi <!ENTITY e1 'no'> ?>", "<!ELEMENT x ANY>", "<!NOTATION n SYSTEM 'y'>", "\n \n",
            "<!ELEMENT a (b,c)*><!-- % -->"]


def render(toks, style=None):
    """returns (text, ranges, pieces): byte ranges per token; pieces[i] is the list of
    byte ranges of the pieces of token i"""
    st = style or Plain()
    out, ranges, pieces = [], [], []
    pos = 0

    def emit(s):
        nonlocal pos
        out.append(s)
        pos += len(s.encode("utf-8"))

    for t in toks:
        k = t[0]
        pr = []
        if k in ("attr", "ns", "sgt", "empty"):
            emit(st.ws(k in ("attr", "ns")))
        start = pos
        if k == "decl":
            emit(t[1] if len(t) > 1 else '<?xml version="1.0"?>')
        elif k == "doctype":
            if len(t) > 2 and t[2]:
                emit(t[2])
            else:
                ext = st.r.choice(["", "", ' SYSTEM "x.dtd"', ' PUBLIC "-//x" \'x y.dtd\'']) if st.quote else ""
                if not t[1] and st.quote and st.r.random() < 0.5:
                    emit("<!DOCTYPE x%s>" % ext)
                    ranges.append((start, pos))
                    pieces.append(pr)
                    continue
                emit("<!DOCTYPE x%s [" % ext)
                sp = lambda: st.r.choice([" ", " ", "\n", "\t "]) if st.quote else " "
                for name, ps, *param in t[1]:
                    if st.quote and st.r.random() < 0.2:
                        emit(st.r.choice(DTD_MISC))
                    lit = "".join(uncodes(p[1]) if p[0] == "s" else piece_text(p, '"') for p in ps)
                    q = "'" if st.r.random() < st.quote and "'" not in lit else '"'
                    # inside an entity value only the quote and & and % are special
                    emit("\n<!ENTITY" + sp() + ("%" + sp() if param else "") + name + sp() + q + lit + q + st.ws(False) + ">")
                emit("\n]>")
        elif k == "comment":
            emit(t[1] if len(t) > 1 else "<!-- c -->")
        elif k == "pi":
            emit(t[1] if len(t) > 1 else "<?pi data?>")
        elif k == "open":
            emit("<" + qn(t[1], t[2]))
        elif k == "attr":
            q = "'" if st.r.random() < st.quote else '"'
            emit(qn(t[1], t[2]) + "=" + q if st.r.random() >= st.tagws else qn(t[1], t[2]) + " = " + q)
            for p in t[3]:
                a = pos
                emit(piece_text(p, q))
                pr.append((a, pos))
            emit(q)
        elif k == "ns":
            q = "'" if st.r.random() < st.quote else '"'
            emit(("xmlns:" + t[1] if t[1] else "xmlns") + "=" + q + (t[3] if len(t) > 3 and t[3] else esc(t[2], q)) + q)
        elif k == "sgt":
            emit(">")
        elif k == "empty":
            emit("/>")
        elif k == "close":
            emit("</" + qn(t[1], t[2]) + st.ws(False) + ">")
        elif k == "text":
            for p in t[1]:
                a = pos
                emit(piece_text(p))
                pr.append((a, pos))
        elif k == "cdata":
            emit("<![CDATA[" + uncodes(t[1]) + "]]>")
        elif k == "bad":
            emit(t[1])
        else:
            raise ValueError(t)
        ranges.append((start, pos))
        pieces.append(pr)
    return "".join(out), ranges, pieces


def spec_tokens(toks):
    """strip what only matters for the rendering"""
    res = []
    for t in toks:
        k = t[0]
        if k in ("decl", "comment", "pi", "bad"):
            res.append([k])
        elif k == "doctype":
            res.append([k, [[n, spec_pieces(ps), "parameter" if x else "general"] for n, ps, *x in t[1]]])
        elif k == "attr":
            res.append([k, t[1], t[2], spec_pieces(t[3])])
        elif k == "ns":
            res.append([k, t[1], t[2]])
        elif k == "text":
            res.append([k, spec_pieces(t[1])])
        else:
            res.append(t)
    return res


def spec_pieces(ps):
    return [["bad"] if p[0] == "bad" else ["num", p[1]] if p[0] == "num" else p for p in ps]


# ---- trees ---------------------------------------------------------------------
# element: {"ns": uri, "local": name, "atts": [[ns, local, value]], "kids": [...]}
# text: str

def el(ns, local, atts=(), kids=()):
    return {"ns": ns, "local": local, "atts": [list(a) for a in atts], "kids": list(kids)}


XMLNS = "http://www.w3.org/XML/1998/namespace"


class Prefixes:
    """chooses how names are written.  mode: 'root' declares everything on the root,
    'local' declares on each tag, 'mix' shadows and redeclares at random"""
    def __init__(self, rnd, mode="root", usedefault=0.5):
        self.r, self.mode, self.usedefault = rnd, mode, usedefault


def collect_ns(t, acc):
    acc.add(t["ns"])
    for a in t["atts"]:
        acc.add(a[0])
    for k in t["kids"]:
        if not isinstance(k, str):
            collect_ns(k, acc)
    return acc


def tokens(tree, rnd, mode="root", usedefault=0.5):
    """tree -> token list (canonical text pieces), inventing prefixes"""
    toks = []
    uris = sorted(u for u in collect_ns(tree, set()) if u not in ("", XMLNS))
    names = ["p", "q", "r", "s", "t", "u", "v", "w"]
    pre = {}
    root_decl = []
    if mode == "root" and uris:
        default = None
        if rnd.random() < usedefault and not uses_no_ns_elements(tree):
            default = rnd.choice(uris)
        for i, u in enumerate(uris):
            if u == default:
                root_decl.append(["", u])
                if u in attr_ns(tree, set()):
                    root_decl.append([names[i], u])
                    pre[u] = names[i]
            else:
                root_decl.append([names[i], u])
                pre[u] = names[i]
        scope0 = {p: u for p, u in root_decl}
    else:
        scope0 = {}

    def pick(uri, scope, decls, isattr):
        """a prefix bound to uri, adding a declaration if needed"""
        if uri == XMLNS:
            return "xml"
        if uri == "":
            if isattr:
                return ""
            if scope.get("", "") != "":
                decls.append(["", ""])
                scope[""] = ""
            return ""
        own = {d[0] for d in decls}
        ok = [p for p, u in scope.items() if u == uri and not (isattr and p == "")]
        if ok and (mode != "mix" or rnd.random() < 0.6):
            return rnd.choice(sorted(ok))
        cands = [p for p in names + ([""] if not isattr else []) if p not in own]
        # never rebind a prefix already used on this tag
        cands = [p for p in cands if p not in used]
        if not cands:
            return rnd.choice(sorted(ok)) if ok else None
        p = rnd.choice(cands) if (mode == "mix" and rnd.random() < 0.7) else cands[0]
        if mode == "mix" and not isattr and rnd.random() < 0.3 and "" in cands:
            p = ""
        decls.append([p, uri])
        scope[p] = uri
        return p

    used = set()

    def walk(t, scope, root):
        nonlocal used
        scope = dict(scope)
        decls = [list(d) for d in root_decl] if root else []
        for p, u in decls:
            scope[p] = u
        used = set()
        ep = pick(t["ns"], scope, decls, False)
        used.add(ep)
        atts = []
        for a in t["atts"]:
            ap = pick(a[0], scope, decls, True)
            used.add(ap)
            atts.append(["attr", ap, a[1], [S(a[2])] if a[2] else []])
        if mode == "mix" and rnd.random() < 0.2:
            # a declaration nobody needs
            c = [p for p in names if p not in {d[0] for d in decls} and p not in used]
            if c:
                p = rnd.choice(c)
                u = rnd.choice(["urn:x", "urn:a", "urn:b"])
                decls.append([p, u])
                scope[p] = u
        toks.append(["open", ep, t["local"]])
        rest = atts + [["ns", d[0], d[1]] for d in decls]
        if mode == "mix":
            rnd.shuffle(rest)
        else:
            rest = [["ns", d[0], d[1]] for d in decls] + atts
        toks.extend(rest)
        if not t["kids"] and rnd.random() < 0.5:
            toks.append(["empty"])
            return
        toks.append(["sgt"])
        for k in t["kids"]:
            if isinstance(k, str):
                if k:
                    toks.append(["text", [S(k)]])
            else:
                walk(k, scope, False)
        toks.append(["close", ep, t["local"]])

    walk(tree, scope0, True)
    return toks


def attr_ns(t, acc):
    for a in t["atts"]:
        acc.add(a[0])
    for k in t["kids"]:
        if not isinstance(k, str):
            attr_ns(k, acc)
    return acc


def uses_no_ns_elements(t):
    return t["ns"] == "" or any(uses_no_ns_elements(k) for k in t["kids"] if not isinstance(k, str))
