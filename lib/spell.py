"""Other ways to write the same document: transformations of token lists that do
not change what the document means (C07), and transformations that make it
malformed (C08)."""
import rdoc, schema

S = rdoc.S


def merge(toks):
    """adjacent text tokens are one token of the document"""
    out = []
    for t in toks:
        if t[0] == "text" and not t[1]:
            continue
        if t[0] == "text" and out and out[-1][0] == "text":
            out[-1] = ["text", out[-1][1] + t[1]]
        else:
            out.append(t)
    return [["text", join(t[1])] if t[0] == "text" else ["attr", t[1], t[2], join(t[3])] if t[0] == "attr" else t for t in out]


def join(ps):
    out = []
    for p in ps:
        if p[0] == "s" and not p[1]:
            continue
        if p[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ["s", out[-1][1] + p[1]]
        else:
            out.append(p)
    return out


def numref(c, r):
    k = r.random()
    if k < 0.4:
        return ["num", c, "&#%d;" % c]
    if k < 0.6:
        return ["num", c, "&#x%x;" % c]
    if k < 0.8:
        return ["num", c, "&#x%X;" % c]
    return ["num", c, "&#%s%d;" % ("0" * r.randint(1, 4), c)] if r.random() < 0.5 else ["num", c, "&#x%s%x;" % ("0" * r.randint(1, 4), c)]


NAMED = {60: "lt", 62: "gt", 38: "amp", 39: "apos", 34: "quot"}


def pieces(cs, r, p, ents=None):
    """spell characters with references"""
    out, i = [], 0
    while i < len(cs):
        c = cs[i]
        if ents and r.random() < p:
            cands = [(n, v) for n, v in ents.items() if v and cs[i:i + len(v)] == v]
            if cands:
                n, v = r.choice(cands)
                out.append(["ent", n])
                i += len(v)
                continue
        if c in (9, 10, 13) or r.random() < p:
            if c in NAMED and r.random() < 0.6:
                out.append(["ent", NAMED[c]])
            elif c in (9, 10, 13) and r.random() > p:
                out.append(["s", [c]])
            else:
                out.append(numref(c, r))
        else:
            out.append(["s", [c]])
        i += 1
    return join(out)


COMMENTS = ["<!-- c -->", "<!---->", "<!-- <a> & ' \" -->", "<!--\n-->", "<!-- x - y -->"]
PIS = ["<?pi data?>", "<?p?>", "<?p <a x='&y;'> ?>", "<?xml-stylesheet href='a'?>"]
DECLS = ['<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>', "<?xml version='1.0' standalone='yes'?>",
         '<?xml version="1.0" encoding="utf-8" standalone="no" ?>']


def misc(r):
    return ["comment", r.choice(COMMENTS)] if r.random() < 0.6 else ["pi", r.choice(PIS)]


class Opts:
    def __init__(self, refs=0.0, cdata=0.0, inter=0.0, prolog=0.0, empties=0.0, attorder=0.0, ents=None):
        self.refs, self.cdata, self.inter, self.prolog = refs, cdata, inter, prolog
        self.empties, self.attorder, self.ents = empties, attorder, ents


def respell(toks, r, o):
    """same meaning, other spelling.  Text tokens are split by comments, processing
    instructions and CDATA sections; characters become references; etc."""
    out = []
    i = 0
    n = len(toks)
    depth = 0
    while i < n:
        t = toks[i]
        k = t[0]
        if k in ("attr", "ns") and r.random() < o.attorder:
            j = i
            grp = []
            while toks[j][0] in ("attr", "ns"):
                grp.append(toks[j])
                j += 1
            r.shuffle(grp)
            out.extend(attr(g, r, o) for g in grp)
            i = j
            continue
        if k == "attr":
            out.append(attr(t, r, o))
        elif k == "text":
            out.extend(text(t, r, o))
        elif k == "empty" and r.random() < o.empties:
            op = next(x for x in reversed(out) if x[0] == "open")
            out.append(["sgt"])
            if r.random() < o.inter:
                out.append(misc(r))
            out.append(["close", op[1], op[2]])
        elif k == "sgt" and i + 1 < n and toks[i + 1][0] == "close" and r.random() < o.empties:
            out.append(["empty"])
            i += 2
            continue
        else:
            out.append(t)
        if k in ("sgt", "empty", "close", "text") and r.random() < o.inter:
            out.append(misc(r))
        i += 1
    pre = []
    if o.ents is not None and (o.ents or r.random() < 0.3):
        pre.append(["doctype", [list(e) for e in o.ents]])
    if r.random() < o.prolog:
        pre = [misc(r)] + pre
    if r.random() < o.prolog:
        pre = pre + [misc(r)]
    if r.random() < o.prolog:
        pre = [["decl", r.choice(DECLS)]] + pre
    if r.random() < o.prolog:
        out.append(misc(r))
    return merge(pre + out)


def entmap(o):
    """declared entities whose value is plain"""
    if not o.ents:
        return None
    return {n: ps[0][1] if ps else [] for n, ps, *x in o.ents if not x and len(ps) == 1 and ps[0][0] == "s"}


def attr(t, r, o):
    if t[0] != "attr" or not t[3] or o.refs == 0 and o.ents is None:
        return t
    ps = []
    for p in t[3]:
        ps += pieces(p[1], r, o.refs, entmap(o)) if p[0] == "s" else [p]
    return ["attr", t[1], t[2], join(ps)]


def text(t, r, o):
    res, cur = [], []

    def flush():
        nonlocal cur
        if cur:
            res.append(["text", join(cur)])
        cur = []
    for p in t[1]:
        if p[0] != "s":
            cur.append(p)
            continue
        cs = p[1]
        i = 0
        while i < len(cs):
            j = i + r.randint(1, max(1, len(cs) - i))
            seg = cs[i:j]
            if r.random() < o.cdata and "]]>" not in rdoc.uncodes(seg):
                flush()
                res.append(["cdata", seg])
            else:
                cur += pieces(seg, r, o.refs, entmap(o)) if o.refs or o.ents else [["s", seg]]
            if r.random() < o.inter:
                flush()
                res.append(misc(r))
            i = j
    flush()
    if r.random() < o.cdata * 0.2:
        res.insert(r.randint(0, len(res)), ["cdata", []])
    return res


# ---- malformed documents ----------------------------------------------------------------

def malform(toks, r):
    """a token list that is not a well-formed document (most of the time), or None"""
    toks = [list(t) for t in toks]
    k = r.randint(0, 14)
    closes = [i for i, t in enumerate(toks) if t[0] == "close"]
    opens = [i for i, t in enumerate(toks) if t[0] == "open"]
    body = [i for i, t in enumerate(toks) if t[0] in ("open", "text", "close", "cdata", "comment", "pi")]
    if k <= 2:
        # cut before a token
        n = r.randint(0, len(toks) - 1)
        return toks[:n]
    if k == 3 and closes:
        i = r.choice(closes)
        return merge(toks[:i] + toks[i + 1:])
    if k == 4 and closes:
        i = r.choice(closes)
        return toks[:i] + [toks[i]] + toks[i:]
    if k == 5 and closes:
        i = r.choice(closes)
        toks[i][2] = r.choice(schema.LOCALS)
        return toks
    if k == 6 and closes:
        i = r.choice(closes)
        toks[i][1] = r.choice(["p", "q", ""])
        return toks
    if k == 7:
        return toks + r.choice([[["open", "", "a"], ["empty"]], [["text", [S("x")]]], [["close", "", "a"]],
                                [["cdata", rdoc.codes("x")]], [["open", "", "a"], ["sgt"], ["close", "", "a"]],
                                [["decl"]], [["doctype", []]], [["text", [["ent", "amp"]]]]])
    if k == 8:
        return r.choice([[["text", [S("x")]]], [["cdata", rdoc.codes(" ")]], [["close", "", "a"]]]) + toks
    if k == 9 and body:
        i = r.choice(body)
        return toks[:i] + [["bad", r.choice(["<", "<!x>", "<1/>", "<a b>", "<a b=1>", "<!-- -- -->x", "< a>", "<a x='1'y='2'>", "<![CDATA[", "<!--", "<?", "<a x='<'/>", "<?xml version='1.0'?>", "\x01"])]]
    if k == 10 and len(closes) > 1:
        i, j = r.sample(closes, 2)
        toks[i], toks[j] = toks[j], toks[i]
        return toks
    if k == 11:
        atts = [i for i, t in enumerate(toks) if t[0] in ("attr", "ns")]
        if atts:
            i = r.choice(atts)
            return toks[:i] + [toks[i]] + toks[i:]
        return None
    if k == 12:
        # an end tag the parser of attributes meets
        i = r.choice(opens)
        return toks[:i + 1]
    if k == 13:
        atts = [i for i, t in enumerate(toks) if t[0] in ("attr",)]
        if atts:
            i = r.choice(atts)
            toks[i][1] = "undeclared"
            return toks
        i = r.choice(opens)
        toks[i][1] = "undeclared"
        return toks
    if k == 14 and closes:
        i = r.choice(closes)
        toks[i] = ["empty"]
        return None
    return None
