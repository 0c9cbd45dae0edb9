"""Random headers with constants, as token lists both the C renderer and Consts.tla read.

The evaluators in here only steer the generator away from what the property does not
speak about (overflow, constants of several Go types in one expression); they decide
nothing about the outcome."""

INT = (-(1 << 31), (1 << 31) - 1)
RANGES = {"i": INT, "u": (0, (1 << 32) - 1), "l": (-(1 << 63), (1 << 63) - 1), "ul": (0, (1 << 64) - 1)}
CAST = {"char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767), "unsigned short": (0, 65535),
        "int": INT, "unsigned int": RANGES["u"], "long": RANGES["l"], "long long": RANGES["l"],
        "unsigned long": RANGES["ul"], "unsigned long long": RANGES["ul"]}
PROM = {"unsigned int": "u", "long": "l", "long long": "l", "unsigned long": "ul", "unsigned long long": "ul"}


class No(Exception):
    pass


class V:
    """An operand: tokens, its value, C type, Go type (fam None = untyped), kind."""
    def __init__(self, tk, val, cty="i", fam=None, kind="int", prec=11, gorange=None):
        self.tk, self.val, self.cty, self.fam, self.kind, self.prec, self.gorange = tk, val, cty, fam, kind, prec, gorange


def t(kind, s):
    return {"t": kind, "s": s}


def o(s):
    return t("o", s)


FAMR = {"uint32": RANGES["u"], "int64": RANGES["l"], "uint64": RANGES["ul"]}


def fit(v):
    """Only what C and Go agree on for sure: no overflow, no wrapping."""
    if v.kind == "int":
        lo, hi = RANGES[v.cty]
        if not lo <= v.val <= hi:
            raise No
        if v.fam:
            lo, hi = v.gorange
            if not lo <= v.val <= hi:
                raise No
    return v


def number(rng, big=True, neg=False):
    """An integer literal in some base, perhaps with a suffix."""
    r = rng.random()
    if r < 0.6:
        n = rng.choice([0, 1, 2, 3, 5, 7, 8, 10, 16, 31, 100, 127, 128, 200, 255, 256, 1000])
    elif r < 0.9 or not big:
        n = rng.randint(0, 1 << rng.choice([4, 8, 12, 16, 24, 30]))
    else:
        n = rng.randint(0, (1 << rng.choice([31, 32, 33, 48, 63, 64])) - 1)
    base = rng.choice([10, 10, 10, 16, 16, 8])
    if base == 10:
        s = str(n)
        if n >= 1 << 63:
            s += "ULL" if rng.random() < 0.5 else "ul"
    elif base == 16:
        s = "%x" % n if rng.random() < 0.5 else "%X" % n
        s = rng.choice(["0x", "0x", "0X"]) + "0" * rng.choice([0, 0, 2]) + s
    else:
        s = "0%o" % n if n else "0"
    return n, s, base


def lit(rng, suffix=0.0, big=False):
    n, s, base = number(rng, big)
    fam, cty = None, None
    suf = ""
    if s[-1] in "Ll":
        fam, cty = "uint64", "ul"
    elif rng.random() < suffix:
        suf = rng.choice(["U", "u", "L", "l", "UL", "ul", "LL", "ll", "ULL", "ull", "Ul", "lu", "LU"])
        us, ls = "u" in suf.lower(), "l" in suf.lower()
        if us and ls:
            fam, cty = "uint64", "ul"
        elif us:
            if n >= 1 << 32:
                n, s = 7, "7"
            fam, cty = "uint32", "u"
        else:
            if n >= 1 << 63:
                n, s = 9, "9"
            fam, cty = "int64", "l"
    if cty is None:
        for c in (["i", "l"] if base == 10 else ["i", "u", "l", "ul"]):
            if RANGES[c][0] <= n <= RANGES[c][1]:
                cty = c
                break
    return V([t("n", s + suf)], n, cty, fam, gorange=FAMR.get(fam))


CH = [("a", 97), ("Z", 90), ("0", 48), (" ", 32), ('"', 34), ("\\n", 10), ("\\t", 9), ("\\0", 0), ("\\x7f", 127), ("\\x41", 65),
      ("\\'", 39), ("\\\\", 92), ("\\?", 63), ("\\\"", 34), ("?", 63), ("\\a", 7), ("\\v", 11), ("\\17", 15), ("\\101", 65), ("\\x5", 5), ("%", 37), ("/", 47), ("{", 123)]


def char(rng):
    s, n = rng.choice(CH)
    return V([t("c", "'" + s + "'")], n)


def string(rng):
    parts = []
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
        s = ""
        for _ in range(rng.randint(0, 6)):
            x = rng.random()
            if x < 0.5:
                s += rng.choice("abcXYZ 019_-./%:;,()[]{}'$@`#!~^&*+=<>|")
            elif x < 0.75:
                s += rng.choice(["\\n", "\\t", "\\\\", "\\\"", "\\'", "\\?", "\\a", "\\v", "\\r", "\\f", "\\b"])
            elif x < 0.9:
                s += rng.choice(["\\0", "\\1", "\\17", "\\177", "\\033", "\\101", "\\377", "\\200"]) + rng.choice(["", "8", "z", " "])
            else:
                s += rng.choice(["\\x41", "\\x7", "\\x1b", "\\xff", "\\x0"]) + rng.choice(["z", " ", "-"])
        parts.append(t("s", '"' + s + '"'))
    return V(parts, None, kind="str", prec=11 if len(parts) == 1 else 9)


def flt(rng):
    s = rng.choice(["1.5", "2.0", "0.25", ".5", "3.", "1e3", "2E2", "1.5e+2", "25e-2", "12.5E-1", "0x1.8p3", "0x10p-2", "0X.8P1", "100.0", "6.02e10", "0.0", "7.0e0"])
    s += rng.choice(["", "", "", "f", "F", "L", "l"])
    return V([t("n", s)], 1, kind="flt")


PREC = {"|": 3, "^": 4, "&": 5, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
XPREC = dict(PREC, **{"||": 1, "&&": 2, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7})
ALLPREC = XPREC


def paren(v):
    return V([o("(")] + v.tk + [o(")")], v.val, v.cty, v.fam, v.kind, 11, v.gorange)


def wrapped(rng, v, need):
    """Parens where C needs them, and sometimes where it does not."""
    if v.prec < need or rng.random() < 0.15:
        return paren(v)
    return v


def common(a, b):
    for c in ("ul", "l", "u"):
        if c in (a, b):
            return c
    return "i"


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(rng, op, a, b):
    if a.kind == "flt" or b.kind == "flt":
        if op not in "+-*/" or (op == "/" and b.kind == "int"):
            raise No
        v = V(None, 1, kind="flt")
        if op == "/" and [x["s"] for x in b.tk if x["s"] in ("0.0", "0.0f", "0.0F", "0.0l", "0.0L", "-", "+", "*")]:
            raise No
        if a.fam or b.fam:
            raise No
    elif a.kind != "int" or b.kind != "int":
        raise No
    else:
        shift = op in ("<<", ">>")
        cty = a.cty if shift else common(a.cty, b.cty)
        fam = a.fam
        if shift:
            if not 0 <= b.val <= 24 or b.fam:
                raise No
        else:
            if a.fam and b.fam and a.fam != b.fam:
                raise No
            fam = a.fam or b.fam
        gr = a.gorange if a.fam else b.gorange
        x, y = a.val, b.val
        if not shift:
            for z in (x, y):
                if not RANGES[cty][0] <= z <= RANGES[cty][1]:
                    raise No
                if fam and not gr[0] <= z <= gr[1]:
                    raise No
        if op in ("/", "%") and y == 0:
            raise No
        n = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: cdiv(x, y), "%": lambda: x - y * cdiv(x, y),
             "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y,
             "==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y), ">": lambda: int(x > y),
             "<=": lambda: int(x <= y), ">=": lambda: int(x >= y), "&&": lambda: int(bool(x and y)), "||": lambda: int(bool(x or y))}[op]()
        if op == "<<" and x < 0:
            raise No
        if op in XPREC and op not in PREC:
            cty, fam = "i", None
        v = V(None, n, cty, fam, gorange=gr if fam else None)
    p = ALLPREC[op]
    l, r = wrapped(rng, a, p), wrapped(rng, b, p + 1)
    v.tk = l.tk + [o(op)] + r.tk
    v.prec = p
    return fit(v)


def unop(rng, op, a):
    if a.kind == "flt" and op in "+-":
        v = V(None, 1, kind="flt")
    elif a.kind != "int":
        raise No
    else:
        n = {"-": lambda: -a.val, "+": lambda: a.val, "~": lambda: ~a.val, "!": lambda: int(not a.val)}[op]()
        if op == "~" and a.fam in ("uint32", "uint64"):
            n = RANGES[a.cty][1] - a.val
        cty, fam, gr = a.cty, a.fam, a.gorange
        if op == "!":
            cty, fam, gr = "i", None, None
        v = V(None, n, cty, fam, gorange=gr)
    x = wrapped(rng, a, 11)
    v.tk = [o(op)] + x.tk
    v.prec = 11
    return fit(v)


class Gen:
    """Expressions over the literals and the operands in `refs` (list of V with one token)."""
    def __init__(self, rng, refs=(), ext=False, suffix=0.0, types=(), floats=0.0, textual=True):
        self.rng, self.refs, self.ext, self.suffix, self.types, self.floats = rng, list(refs), ext, suffix, list(types), floats

    def leaf(self):
        r = self.rng.random()
        if self.refs and r < 0.5:
            return self.rng.choice(self.refs)
        if r < 0.6:
            return char(self.rng)
        if r < 0.6 + self.floats:
            return flt(self.rng)
        return lit(self.rng, self.suffix)

    def expr(self, d):
        r = self.rng.random()
        if d == 0 or r < 0.15:
            return self.leaf()
        if r < 0.3:
            return unop(self.rng, self.rng.choice("-~+" + "!" * self.ext * 2), self.expr(d - 1))
        if r < 0.38 and self.types:
            ty = self.rng.choice(self.types)
            a = self.expr(d - 1)
            if a.kind != "int":
                raise No
            lo, hi = CAST[ty["base"]]
            if not lo <= a.val <= hi:
                raise No
            x = wrapped(self.rng, a, 11)
            return V([o("("), ty["tok"], o(")")] + x.tk, a.val, PROM.get(ty["base"], "i"), ty["fam"], gorange=(lo, hi), prec=11)
        if r < 0.46 and self.ext:
            c, a, b = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            if "int" != c.kind or "int" != a.kind or "int" != b.kind:
                raise No
            cty = common(a.cty, b.cty)
            n = a.val if c.val else b.val
            for z in (a.val, b.val):
                if not RANGES[cty][0] <= z <= RANGES[cty][1]:
                    raise No
            return V(wrapped(self.rng, c, 1).tk + [o("?")] + a.tk + [o(":")] + b.tk, n, cty, prec=0)
        if r < 0.5 and self.ext:
            ty = self.rng.choice(["char", "short", "int", "long", "unsigned long long", "unsigned short"])
            return V([t("z", "sizeof"), o("("), t("y", ty), o(")")],
                     {"char": 1, "short": 2, "int": 4, "long": 8, "unsigned long long": 8, "unsigned short": 2}[ty], "ul")
        ops = list(PREC) + (list(XPREC) if self.ext else [])
        return binop(self.rng, self.rng.choice(ops), self.expr(d - 1), self.expr(d - 1))

    def some(self, d, ok=lambda v: True):
        for _ in range(60):
            try:
                v = self.expr(d)
                if len(v.tk) <= 40 and ok(v):
                    return v
            except No:
                pass
        return V([t("n", "1")], 1)


def text(tk):
    return " ".join(x["s"] for x in tk)


def in_int(v):
    return v.kind == "int" and INT[0] <= v.val <= INT[1]


def tight(rng, tk):
    """Tokens as text, with as few spaces as the lexer needs or with spaces."""
    if rng.random() < 0.5:
        return text(tk)
    s = ""
    for x in tk:
        a, b = s[-1:], x["s"][0]
        glue = (a.isalnum() or a in "_.'\"") and (b.isalnum() or b in "_.'\"") or a in "+-&|<>=!" and b in "+-&|<>=!" or (a + b) in ("/*", "//") or a in "eEpP" and b in "+-"
        s += (" " if glue else "") + x["s"]
    return s


def gen_case(rng):
    style = rng.choice(["same", "export", "prefix"])
    pre = "Zq" if style == "same" else "zq_"
    go = {"same": lambda n: n, "export": lambda n: n[0].upper() + n[1:], "prefix": lambda n: "K" + n[3:]}[style]
    used = set()

    def name(acc=True):
        while True:
            n = (pre if acc else rng.choice(["nz_", "NZ"])) + rng.choice(["A", "Bc", "mode", "Flag_", "x", "max", "SIZE"]) + str(rng.randint(0, 99))
            if n.lower() not in used:
                used.add(n.lower())
                return n
    enummode = rng.choice(["", "eval", "expand", "expand", "cgo"])
    defmode = rng.choice(["", "expand", "expand"])
    typedefs, lines, items, tips = [], [], [], []
    for _ in range(rng.randint(0, 2)):
        n, acc = name(), True
        if rng.random() < 0.2:
            n, acc = name(False), False
        base = rng.choice(["int", "unsigned char", "short", "unsigned int", "long long", "unsigned short"])
        typedefs.append({"name": n, "base": base, "acc": acc})
        lines.append("typedef %s %s;" % (base, n))
    types = [{"tok": t("i", d["name"]), "base": d["base"], "fam": "t:" + d["name"]} for d in typedefs]
    mrefs = []     # macros as operands
    erefs = []     # enum members as operands: (V, enum number or None for untyped)

    def macro(refs, depth, where):
        acc = rng.random() < 0.9
        n = name(acc)
        r = rng.random()
        kind = "macro"
        if r < 0.05:
            v = V([], None, kind="empty")
        elif r < 0.1:
            v = V(rng.choice([[t("i", "nz_undefined")], [t("i", "nz_undefined"), o("+"), t("n", "1")], [o("("), t("n", "1"), o("+"), t("i", "nz_undefined"), o(")")],
                              [o("{"), t("n", "1"), o("}")], [o("+")], [t("n", "1"), o(";")], [t("n", "1"), o(","), t("n", "2")]]), None, kind="bad")
        elif r < 0.22:
            v = string(rng)
        elif r < 0.27:
            v = rng.choice([flt(rng), lit(rng, 0.5, True), char(rng), lit(rng, 0.2, True)])
        elif r < 0.33:
            bad = [x for x in mrefs if x.kind in ("bad", "empty", "str")]
            if bad:
                x = rng.choice(bad)
                v = V(rng.choice([x.tk, [o("(")] + x.tk + [o(")")], x.tk + [o("+"), t("n", "1")]]), None, kind=x.kind if x.kind != "empty" else "bad")
            else:
                v = string(rng)
        else:
            ok = [x for x in refs if x.kind in ("int", "flt")]
            g = Gen(rng, ok, ext=rng.random() < 0.12, suffix=0.12 if rng.random() < 0.3 else 0.0, types=types if rng.random() < 0.5 else [], floats=0.3 if rng.random() < 0.2 else 0.02)
            v = g.some(depth)
            if rng.random() < 0.5:
                v = paren(v)
        # as C substitutes tokens, a reference takes part with the value only where it is an operand
        atomic = v.prec >= 11
        items.append({"k": "macro", "name": n, "toks": v.tk, "acc": acc, "go": go(n), "prec": v.prec})
        x = V([t("i", n)], v.val, v.cty, v.fam, v.kind, v.prec if not atomic else 11, v.gorange)
        where.append("#define %s %s" % (n, tight(rng, v.tk)) if v.tk else "#define %s" % n)
        mrefs.append(x)

    def macros(k, refs, where):
        got = []
        for _ in range(k):
            # non-operands are put in parens by wrapped(); sometimes they are not: the value is then TLC's business
            macro(refs(), rng.choice([0, 1, 1, 2, 2, 3]), got)
        if rng.random() < 0.5:
            rng.shuffle(got)
        where += got

    if rng.random() < 0.3:
        lines.append("#define %sFN(x) ((x) + 1)" % pre)
    macros(rng.randint(1, 6), lambda: mrefs, lines)
    first_macros = [m for m in mrefs if m.kind == "int"]
    for e in range(rng.randint(1, 3)):
        form = rng.choice(["anon", "tag", "td", "tdtag"])
        tn, tag = name(), name()
        etype = go(tn) if form in ("td", "tdtag") else ""
        # the values of an enum of type unsigned may exceed those of int
        uns = bool(etype) and rng.random() < 0.25
        tdgo, taggo = go(tn), go(tag)
        # members of an enum known by its tag have no type, only the enum has
        unstag = form == "tag" and rng.random() < 0.2
        if uns or unstag:
            tips.append({"target": "^%s$" % (tdgo if uns else taggo), "tips": rng.choice([
                ["unsigned"], ["unsigned", "named"], ["named", "unsigned"], ["named", "plain", "unsigned"], [None, "unsigned"]])})
        if form != "anon":
            items.append({"k": "etype", "name": tag if form == "tag" else tn, "toks": [], "acc": True,
                          "go": taggo if form == "tag" else tdgo, "base": "uint32" if uns or unstag else "int32"})
        ms, prev = [], -1
        fam = ("e:%d" % e) if etype else None
        for j in range(rng.randint(1, 6)):
            acc = rng.random() < 0.92
            n = name(acc)
            toks, plain = [], True
            if uns:
                toks = [t("n", rng.choice(["0xFFFFFFFF", "0x80000000", "4294967294", "0x90000000", "2147483648", "0", "5", "017"]))] if rng.random() < 0.7 else []
                if not toks and (not ms or rng.random() < 0.5):
                    toks = [t("n", "0")]
                plain = False
                if toks:
                    prev = 0 if toks[0]["s"] in ("0", "5", "017") else -1
                elif prev == -1:
                    toks, prev = [t("n", "1")], 0
            elif rng.random() < 0.55 or prev >= INT[1] - 1:
                same = [x for x, f in erefs if f == e]
                other = [x for x, f in erefs if f != e and (enummode not in ("expand",) or not x.fam)]
                if enummode == "expand" and not etype:
                    pass
                refs = same + other + (first_macros if rng.random() < 0.5 else [])
                ext = rng.random() < 0.3
                g = Gen(rng, refs, ext=ext, suffix=0.15 if rng.random() < 0.2 else 0.0,
                        types=[{"tok": t("y", b), "base": b, "fam": None} for b in ("unsigned char", "int", "short", "long")] if ext else [])
                v = g.some(rng.choice([0, 0, 1, 2, 2, 3]), in_int)
                if in_int(v):
                    toks = v.tk
                    prev = v.val
                    plain = v.cty == "i"  # cc gives members the type of their expression
                else:
                    toks, prev = [t("n", "3")], 3
            else:
                prev += 1
            items.append({"k": "enum", "name": n, "toks": toks, "acc": acc, "go": go(n), "first": j == 0, "etype": etype})
            x = V([t("i", n)], prev, "i", fam, gorange=INT)
            if not fam:
                x.gorange = None
            if plain:
                erefs.append((x, e))
            elif not uns:
                prev = INT[1]  # and the members after it as well: always give them a value
            ms.append(n + (" = " + tight(rng, toks) if toks else ""))
        body = "{ " + ", ".join(ms) + rng.choice(["", ","]) + " }"
        lines.append({"anon": "enum %s;" % body, "tag": "enum %s %s;" % (tag, body), "td": "typedef enum %s %s;" % (body, tn),
                      "tdtag": "typedef enum %s %s %s;" % (tag, body, tn)}[form])
        if rng.random() < 0.4:
            base = rng.choice(["char", "short", "unsigned short", "int", "unsigned int", "long long", "unsigned long long", "float", "double"])
            n = name()
            if base in ("float", "double"):
                v = rng.choice([lambda: flt(rng), lambda: Gen(rng).some(1, lambda v: v.kind == "int" and abs(v.val) < 1 << 20)])()
                if v.tk[0]["s"].lower().startswith("6.02"):
                    v = V([t("n", "2.5")], 1, kind="flt")
            else:
                lo, hi = CAST[base] if base != "char" else (0, 127)
                g = Gen(rng, first_macros + [x for x, _ in erefs], ext=rng.random() < 0.4, suffix=0.1)
                big = base.endswith("long") and rng.random() < 0.4
                v = (lit(rng, 0, True) if big else None) or g.some(2, lambda v: v.kind == "int" and lo <= v.val <= hi)
                if not lo <= v.val <= hi:
                    v = V([t("n", "9")], 9)
            items.append({"k": "var", "name": n, "toks": v.tk, "acc": True, "go": go(n), "base": base})
            lines.append("const %s %s = %s;" % (base, n, text(v.tk)))
    macros(rng.randint(0, 6), lambda: mrefs + [x for x, _ in erefs] * 2, lines)
    for it in items:
        it.setdefault("first", False)
        it.setdefault("etype", "")
        it.setdefault("base", "")
    rules = {"global": [{"action": "accept", "from": "^" + pre}]}
    if style == "export":
        rules["global"].append({"transform": "export"})
    elif style == "prefix":
        rules["global"].append({"action": "replace", "from": "^zq_", "to": "K"})
    return {"lines": lines, "items": items, "typedefs": typedefs, "rules": rules, "enummode": enummode, "defmode": defmode, "tips": tips}
