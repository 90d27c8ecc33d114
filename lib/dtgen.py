"""Random and exhaustive cases for the datatypes (spec/TraceData.tla): types, facets,
excepted values, and strings near the borders of their value spaces."""
import itertools
from rdoc import codes

INTS = {"xsd:short": (-32768, 32767), "xsd:unsignedShort": (0, 65535), "xsd:int": (-2**31, 2**31 - 1),
        "xsd:unsignedInt": (0, 2**32 - 1), "xsd:long": (-2**63, 2**63 - 1), "xsd:unsignedLong": (0, 2**64 - 1),
        "xsd:integer": (None, None), "xsd:positiveInteger": (1, None)}
UNSIGNED = {"xsd:unsignedShort", "xsd:unsignedInt", "xsd:unsignedLong"}
NUMERIC = list(INTS) + ["xsd:decimal", "xsd:double"]
LENGTH = ["xsd:string", "xsd:normalizedString", "xsd:token", "xsd:NCName", "xsd:NMTOKEN", "xsd:NMTOKENS"]
STRINGLIKE = LENGTH + ["xsd:language", "xsd:anyURI", "xsd:date", "xsd:dateTime", "xsd:duration", "xsd:ID", "xsd:IDREF", "string", "token"]
NOPATTERN = {"xsd:token", "xsd:NCName", "xsd:NMTOKEN", "xsd:NMTOKENS", "string", "token"}
WS = [" ", "  ", "\t", "\n", "\r", " \n"]


# ---- regular expressions -----------------------------------------------------------

def re_gen(r, alpha, d=2):
    k = r.random()
    if d == 0 or k < 0.3:
        k = r.random()
        if k < 0.55:
            return ["ch", ord(r.choice(alpha))]
        if k < 0.7:
            return ["dot"]
        rs = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            a = ord(r.choice(alpha))
            b = min(a + r.choice([0, 0, 2, 9]), 0x10FFFF)
            if any(not (chr(c).isalnum()) for c in (a, b)):
                b = a
            rs.append([a, b])
        return ["cls", rs, r.random() < 0.25]
    if k < 0.55:
        return ["cat", [re_gen(r, alpha, d - 1) for _ in range(r.choice([2, 2, 2, 3, 3, 4]))]]
    if k < 0.75:
        return ["alt", [re_gen(r, alpha, d - 1) for _ in range(r.choice([2, 2, 2, 3, 3, 4]))]]
    lo, hi = r.choice([(0, -1), (1, -1), (0, 1), (2, 2), (1, 3), (2, -1), (0, 2)])
    return ["rep", re_gen(r, alpha, d - 1), lo, hi]


def re_sample(r, x, alpha):
    k = x[0]
    if k == "eps":
        return ""
    if k == "ch":
        return chr(x[1])
    if k == "dot":
        return r.choice(alpha)
    if k == "cls":
        if x[2]:
            return r.choice(alpha)
        a, b = r.choice(x[1])
        return chr(r.randint(a, b))
    if k == "cat":
        return "".join(re_sample(r, y, alpha) for y in x[1])
    if k == "alt":
        return re_sample(r, r.choice(x[1]), alpha)
    n = r.randint(x[2], x[2] + 2 if x[3] < 0 else x[3])
    return "".join(re_sample(r, x[1], alpha) for _ in range(n))


# ---- strings -----------------------------------------------------------------------

NAMECHARS = [(0x2D, 0x2E), (0x30, 0x39), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xB7, 0xB7), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x37D), (0x37F, 0x1FFF),
             (0x200C, 0x200D), (0x203F, 0x2040), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)]
# the ends of the ranges of name characters and what lies next to them
BORDERS = "".join(chr(c) for a, b in NAMECHARS for c in (a - 1, a, b, b + 1) if c not in (0xD800, 0xFFFE, 0xFFFF))
# what other definitions of letters, digits and white space take in
ODD = ("\u00aa\u00b2\u00b3\u00b5\u00b9\u00ba\u00bc\u00be\u00d7\u0660\u0663\u06f1\u0967\uff10\uff11\uff19\uff21\uff41\u2460\u2160\u2075\u2081\u00df\u0130\u0131\u017f\u212a\u2212\u2013\u2010\uff0d\uff0b\uff0e\uff1a\u02d0"
       "\u0085\u00a0\u1680\u2000\u2003\u2028\u2029\u200b\u202f\u205f\u3000\ufeff\u180e\u00ad\u0300\u20dd\ue000\U0001d7d8\U0001d400\U0010fffd")


def odd_char(r):
    k = r.random()
    if k < 0.45:
        return r.choice(ODD)
    if k < 0.8:
        return r.choice(BORDERS)
    while True:
        c = r.choice([r.randint(0x80, 0x3100), r.randint(0x80, 0xFFFD), r.randint(0x10000, 0x10FFFD)])
        if not 0xD800 <= c <= 0xDFFF:
            return chr(c)


def around(r, ns):
    n = r.choice(ns) + r.choice([0, 0, 0, 1, -1, r.randint(-12, 12)])
    return n


def int_string(r, ns):
    n = around(r, ns)
    if r.random() < 0.15:
        n = r.choice([1, -1]) * int("".join(r.choice("0123456789") for _ in range(r.randint(1, 40))))
    s = str(abs(n))
    if r.random() < 0.25:
        s = "0" * r.randint(1, 3) + s
    return ("-" if n < 0 else "+" if r.random() < 0.15 else "") + s


def dec_string(r, ns):
    s = int_string(r, ns)
    k = r.random()
    if k < 0.35:
        return s
    if k < 0.45:
        return s + "."
    f = r.choice(["0", "5", "50", "05", "00", "25", "001", "999", "9999999999999999999999"])
    if k < 0.55:
        return ("-" if s.startswith("-") else "") + "." + f
    return s + "." + f


def dbl_string(r, ns):
    k = r.random()
    if k < 0.15:
        return r.choice(["INF", "-INF", "NaN", "+INF", "inf", "nan", "Infinity", "-NaN", "1e", "e5", "1e5.0", ".e1", "1E+", "0x10", "1_0", "--INF"])
    s = r.choice(["", "", "-", "+"]) + str(r.choice([0, 1, 2, 5, 10, 15, 25, 99, 100, 1000, abs(r.choice(ns))]))
    s += r.choice(["", "", ".", ".0", ".5", ".25", ".75"])
    if r.random() < 0.4:
        s += r.choice("eE") + r.choice(["", "+", "-"]) + r.choice(["0", "1", "2", "02", "3"])
    return s


def deform(r, s, extra="abzAZ019 \t\n\r+-.:,_/#%\u00e9\u3042"):
    k = r.random()
    i = r.choice([0, len(s), r.randint(0, len(s))])
    if r.random() < 0.2:
        extra = odd_char(r)
    if k < 0.4:
        return s[:i] + r.choice(extra) + s[i:]
    if k < 0.7 and s:
        i = r.randrange(len(s))
        return s[:i] + s[i + 1:]
    if k < 0.9 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice(extra) + s[i + 1:]
    return s + s[-1:] if s else r.choice(extra)


def wrap_ws(r, s):
    if r.random() < 0.25:
        s = r.choice(WS) + s
    if r.random() < 0.25:
        s = s + r.choice(WS)
    return s


def date_string(r):
    y = r.choice(["2000", "1999", "1900", "2024", "2023", "0001", "0000", "9999", "0400", "1600"])
    m = r.choice(["01", "02", "02", "02", "04", "06", "11", "12", "00", "13", "10", "9"])
    d = r.choice(["01", "28", "29", "30", "31", "00", "32", "15", "1"])
    return r.choice(["", "", "", "-", "+"]) + y + "-" + m + "-" + d


def zone(r):
    return r.choice(["", "", "", "Z", "z", "+00:00", "-00:00", "+14:00", "+14:01", "-14:00", "+13:59", "+15:00", "+1:00", "+12", "+12:60", "-05:30", "Z0", " Z"])


def time_string(r):
    t = r.choice(["00", "01", "09", "12", "19", "20", "23", "24", "24", "25", "1"]) + ":" + r.choice(["00", "00", "59", "60", "07", "7"])
    if r.random() < 0.95:
        t += ":" + r.choice(["00", "00", "59", "60", "61", "07"])
    if r.random() < 0.35:
        t += r.choice([".", ".0", ".5", ".000", ".123456789", ".1234567890123", ",5"])
    return t


def duration_string(r):
    s = r.choice(["", "", "-", "+"]) + r.choice(["P", "P", "P", "P", "p", ""])
    for u in "YMD":
        if r.random() < 0.45:
            s += r.choice(["0", "1", "10", "007", "1.5", "", "-1"] if r.random() < 0.3 else ["0", "1", "12"]) + u
    if r.random() < 0.6:
        s += "T"
        for u in "HMS":
            if r.random() < 0.5:
                s += r.choice(["0", "1", "10", "99999999999999999999"] if u != "S" or r.random() < 0.5 else ["1.5", "0.0", "1.", ".5", "3.14159"]) + u
    if r.random() < 0.05:
        s += r.choice(["W", "1W", "T", "1D"])
    return s


LETTERS = "abzAZ_09-.:\u00e9\u00b7\u3042\u0301\U00010000"


def name_string(r):
    if r.random() < 0.25:
        s = "".join(r.choice("ab1-.") if r.random() < 0.5 else odd_char(r) for _ in range(r.randint(1, 4)))
        return s if r.random() < 0.3 else "a" + s
    return r.choice("ab_Z\u00e9\u3042\U00010000") + "".join(r.choice(LETTERS) for _ in range(r.randint(0, 5)))


def uri_string(r):
    s = r.choice(["", "", "http:", "a+b.c-1:", "urn:", "1a:", ":", "mailto:"])
    if r.random() < 0.5:
        s += "//" + r.choice(["example.com", "a", "u@h", "h:80", "127.0.0.1", ""])
        if r.random() < 0.7:
            s += "/" + r.choice(["", "a", "a/b", "a%20b", "..", "a;b=c", "~u", "(x)'*!$&+,"])
    else:
        s += r.choice(["", "a", "a/b", "/a/b", "../x", "a%41", "a%4", "a%", "a%zz", "./a:b", "x,y"])
    if r.random() < 0.25:
        s += "?" + r.choice(["", "q=1&r=%20", "a?b", "/"])
    if r.random() < 0.25:
        s += "#" + r.choice(["", "f", "a/b?", "a#b"])
    return s


def lang_string(r):
    return "-".join(r.choice(["en", "a", "de", "abcdefgh", "abcdefghi", "x", "US", "1996", "419", "i", "a1", "", "\u00e9"]) if r.random() < 0.8 else "en"
                    for _ in range(r.randint(1, 4)))


def words(r):
    return r.choice(["", " ", "  "]) + r.choice([" ", "  ", "\n", "\t", "\r\n"]).join(
        name_string(r) if r.random() < 0.7 else r.choice(["1", "-", "a", "on", "\u00e9\u00e9", "\U0001F600", "&<", "]]", "a;b"]) for _ in range(r.randint(0, 4))) + r.choice(["", "", " ", "\n"])


def interesting(t, params, values):
    """numbers mentioned by the case"""
    ns = [0, 1, -1, 9, 10]
    lo, hi = INTS.get(t, (None, None))
    ns += [x for x in (lo, hi) if x is not None]
    for n, v in params:
        if n in ("minInclusive", "maxInclusive", "minExclusive", "maxExclusive"):
            try:
                ns += [int(float(v)) if len(v) < 12 else int(v.split(".")[0])] * 4
            except (ValueError, OverflowError):
                pass
    for v in values:
        try:
            ns += [int(v)] * 2
        except ValueError:
            pass
    return ns


def a_string(r, t, params=(), values=()):
    if values and r.random() < 0.2:
        s = r.choice(values)
    elif t in INTS:
        s = int_string(r, interesting(t, params, values))
    elif t == "xsd:decimal":
        s = dec_string(r, interesting(t, params, values))
    elif t == "xsd:double":
        s = dbl_string(r, interesting(t, params, values))
    elif t == "xsd:boolean":
        s = r.choice(["true", "false", "1", "0", "TRUE", "True", "yes", "", "01", "t"])
    elif t == "xsd:date":
        s = date_string(r) + (zone(r) if r.random() < 0.6 else "")
        if r.random() < 0.1:
            s += "T" + time_string(r)
    elif t == "xsd:dateTime":
        s = date_string(r) + r.choice(["T"] * 9 + ["t", " "]) + time_string(r) + zone(r)
        if r.random() < 0.5:
            s = r.choice(["2000-02-29T", "1999-12-31T"]) + time_string(r) + (zone(r) if r.random() < 0.5 else "")
    elif t == "xsd:duration":
        s = duration_string(r)
    elif t == "xsd:anyURI":
        s = uri_string(r)
    elif t == "xsd:language":
        s = lang_string(r)
    elif t in ("xsd:NCName", "xsd:NMTOKEN", "xsd:ID", "xsd:IDREF"):
        s = name_string(r)
    else:
        s = words(r)
    pats = [p for p in params if p[0] == "pattern"]
    if pats and r.random() < 0.5:
        s = re_sample(r, r.choice(pats)[1], "ab1-\u00e9 ")
    if r.random() < 0.22:
        s = deform(r, s)
        if t in ("xsd:string", "xsd:normalizedString") and r.random() < 0.3:
            s = deform(r, s, "\r\n\t ")
        if r.random() < 0.3:
            s = deform(r, s)
    return wrap_ws(r, s)


def claimed(t, s):
    """strings the properties say nothing about are left out"""
    c = " ".join(s.split())
    if any(x not in "\t\n\r" and ord(x) < 32 for x in s):
        return False
    if t in UNSIGNED and c[:1] in ("+", "-"):
        return False
    if t == "xsd:anyURI":
        return all(ord(x) < 128 for x in s) and not any(x in "[]" for x in s) and uri_ok(c)
    if t in ("xsd:date", "xsd:dateTime"):
        d = c.lstrip("-").split("-")[0]
        return not (len(d) > 4 and d.isdigit())
    if t == "xsd:double":
        m = c.lower().split("e")
        return len(m) < 2 or len(m[1]) < 5
    return True


def uri_ok(s):
    """leave out what depends on the fine print of RFC 3986 (ports, the authority's form, //
    without authority, a colon in the first segment of a relative path)"""
    import re
    m = re.match(r"^([A-Za-z][A-Za-z0-9+.-]*:)?(//[^/?#]*)?", s)
    rest = s[m.end():]
    if m.group(2) is not None:
        if re.search(r":(?!\d*$)|@.*@|%", m.group(2)[2:].split("@")[-1]) or ":" in m.group(2).split("@")[0][2:] and "@" in m.group(2):
            return False
        port = re.search(r":(\d*)$", m.group(2))
        if port and (port.group(1) == "" or int(port.group(1)) > 65535):
            return False
    elif rest.startswith("//"):
        return False
    if m.group(1) is None and "/" in rest and ":" in rest.split("?")[0].split("#")[0][rest.index("/"):]:
        return False
    return True


# ---- facets ------------------------------------------------------------------------

BOUNDS = ["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"]


def bound(r, t, base):
    lo, hi = INTS.get(t, (None, None))
    if t in INTS:
        n = base + r.choice([0, 0, 1, 2, 5, 10])
        if r.random() < 0.12:
            n = r.choice([x for x in (lo, hi, 0, 10**25, -10**25) if x is not None])
        if r.random() < 0.9:
            if lo is not None:
                n = max(lo, n)
            if hi is not None:
                n = min(hi, n)
        if t in UNSIGNED or t == "xsd:positiveInteger":
            n = max(n, 1 if t == "xsd:positiveInteger" else 0)
        s = str(abs(n))
        if r.random() < 0.15:
            s = "0" + s
        if n < 0:
            s = "-" + s
        elif r.random() < 0.1 and t not in UNSIGNED and t != "xsd:positiveInteger":
            s = "+" + s
        if r.random() < 0.05:
            return r.choice(["", "abc", "1.5", "0x1", "1 2", "--1", "1a"])
        return s
    s = str(base + r.choice([0, 1, 2, 5])) + r.choice(["", "", ".5", ".25", ".0", ".75"])
    if t == "xsd:decimal" and r.random() < 0.1:
        s = r.choice(["123456789012345678901234567890.5", "-123456789012345678901234567890", ".5", "5."])
    if t == "xsd:double" and r.random() < 0.2:
        s = r.choice(["1e2", "1.5E1", "-2e0", "25e-2"])
    if r.random() < 0.05:
        return r.choice(["", "abc", "1,5", "1 2", "--1", "1.2.3", "."])
    return s


def value_of(s):
    try:
        from fractions import Fraction
        return Fraction(s)
    except (ValueError, ZeroDivisionError):
        return None


def num_facets(r, t):
    ps = []
    if t == "xsd:boolean":
        if r.random() < 0.3:
            ps.append(["pattern", re_gen(r, "truefals01", 2)])
        return ps
    base = r.choice([0, 0, 3, 10, 100, -5, -100, 30000])
    k = r.random()
    names = []
    if k < 0.3:
        names = [r.choice(BOUNDS)]
    elif k < 0.75:
        names = [r.choice(BOUNDS[:2]), r.choice(BOUNDS[2:])]
    elif k < 0.85:
        names = [r.choice(BOUNDS) for _ in range(r.randint(2, 3))]
    for n in names:
        off = 6 if n.startswith("max") and r.random() < 0.75 else 0
        ps.append([n, bound(r, t, base + off)])
    # equal exclusive bounds are not claimed to be acceptable or not
    lo = [value_of(v) for n, v in ps if n == "minExclusive"]
    hi = [value_of(v) for n, v in ps if n == "maxExclusive"]
    if any(a is not None and a == b for a in lo for b in hi):
        ps = [p for p in ps if p[0] != "maxExclusive"]
    if t == "xsd:decimal":
        if r.random() < 0.3:
            ps.append(["totalDigits", r.choice(["1", "2", "3", "5"])])
        if r.random() < 0.3:
            ps.append(["fractionDigits", r.choice(["0", "1", "2"])])
    if r.random() < 0.2:
        ps.append(["pattern", re_gen(r, "0159.-+", 2)])
    if r.random() < 0.03:
        ps.append([r.choice(["length", "minLength", "totalDigit", "foo"]), "1"])
    r.shuffle(ps)
    return ps


def str_facets(r, t):
    ps = []
    if t in LENGTH:
        k = r.random()
        small = lambda: str(r.choice([0, 1, 2, 3, 4, 6]))
        if k < 0.2:
            ps.append(["length", small()])
        elif k < 0.4:
            ps.append([r.choice(["minLength", "maxLength"]), small()])
        elif k < 0.65:
            a, b = sorted([int(small()), int(small())])
            if r.random() < 0.2:
                a, b = b, a
            ps += [["minLength", str(a)], ["maxLength", str(b)]]
        elif k < 0.75:
            ps += [[r.choice(["length", "minLength", "maxLength"]), small()] for _ in range(2)]
        if r.random() < 0.04:
            ps.append(["minLength", r.choice(["", "x", "-1", "1.0" ])])
    if t not in NOPATTERN or r.random() < 0.02:
        alpha = {"xsd:date": "0129-", "xsd:dateTime": "012T:-", "xsd:duration": "PTYMD1", "xsd:anyURI": "ahtp:/", "xsd:language": "en-US"}.get(t, "ab1-\u00e9 ")
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            ps.append(["pattern", re_gen(r, alpha, 2)])
    if r.random() < 0.03:
        ps.append([r.choice(["minInclusive", "totalDigits", "foo", "maxExclusive"]), "1"])
    if t in ("string", "token"):
        ps = []
    r.shuffle(ps)
    return ps


def values_for(r, t):
    """values for `value' patterns and exceptions"""
    if t in INTS or t in ("xsd:decimal", "xsd:double"):
        v = {"xsd:decimal": dec_string, "xsd:double": dbl_string}.get(t, int_string)(r, [0, 1, 5, 10, 100])
        return v
    return a_string(r, t)


def norm_values(t, v):
    return v if t in ("string", "xsd:string") else " ".join(v.split())


VALTYPES = NUMERIC + ["xsd:boolean", "xsd:string", "xsd:normalizedString", "xsd:token", "xsd:NCName", "xsd:NMTOKEN", "xsd:NMTOKENS",
                      "xsd:language", "xsd:anyURI", "xsd:ID", "string", "token"]


def random_case(r, t, facets, nstr=24):
    k = r.random()
    if k < 0.15 and t in VALTYPES:
        v = values_for(r, t)
        if claimed(t, v) and "\r" not in v:
            out = {"kind": "value", "t": t, "params": [], "value": v, "except": []}
            strs = {v, norm_values(t, v), v.upper(), " " + v, "0" + v, v + "0", v + ".0", "+" + v, "-" + v}
            for _ in range(nstr):
                strs.add(wrap_ws(r, deform(r, v)) if r.random() < 0.5 else a_string(r, t, [], [v]))
            out["strs"] = sorted(s for s in strs if claimed(t, s))
            return out
    ps = facets(r, t)
    exc = []
    if r.random() < 0.12 and t in VALTYPES:
        exc = [values_for(r, t) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
        exc = [v for v in exc if claimed(t, v) and "\r" not in v]
    strs = set()
    for _ in range(nstr):
        strs.add(a_string(r, t, ps, exc))
    if ps and r.random() < 0.5:
        strs |= {v for n, v in ps if n in BOUNDS}
    return {"kind": "data", "t": t, "params": ps, "value": "", "except": exc, "strs": sorted(s for s in strs if claimed(t, s))}


# ---- all short strings over an alphabet ------------------------------------------------

ALPHABETS = {
    "xsd:integer": "+-019 a.", "xsd:short": "-0+ 9", "xsd:int": "-0+ 9", "xsd:long": "-0+ 9", "xsd:positiveInteger": "01 9a", "xsd:unsignedShort": "01 9a",
    "xsd:unsignedInt": "01 9a", "xsd:unsignedLong": "01 9a",
    "xsd:decimal": "+-.019 e", "xsd:double": "+-.1eE 0", "xsd:boolean": "10 t",
    "xsd:NCName": "a_-.1: \u00e9", "xsd:NMTOKEN": "a_-.1: \u00b7", "xsd:NMTOKENS": "a-1: \n\u00e9", "xsd:ID": "a_-.1: ", "xsd:IDREF": "a_-.1: ",
    "xsd:language": "aZ1- _", "xsd:anyURI": "a/:#?%1 ", "xsd:duration": "PT1YMS.-", "xsd:token": "a \t\n\u00e9", "xsd:string": "a \t\u3042",
    "xsd:normalizedString": "a \t\n\u3042", "string": "a \n", "token": "a \n\t"}


def exhaustive(t, n, facets=()):
    for k in range(n + 1):
        for p in itertools.product(ALPHABETS[t], repeat=k):
            s = "".join(p)
            if claimed(t, s):
                yield s
