"""Random configurations (rules) and C headers over a small vocabulary, as models
that both the C/YAML renderers here and the TLA+ specification (Inventory.tla)
read; and the reading of a generated package back into the same terms."""
import json, os, re
import rxgen

TARGETS = ["global", "post-global", "const", "type", "function", "public", "private"]
LETTERS = "abxyABXY"


def rule(act="", frm=None, ci=False, to=None, tr="", load=""):
    return {"act": act, "from": frm or {"k": "none"}, "ci": ci, "to": to or [], "tr": tr, "load": load}


def rules_config(rules):
    out = {}
    for t, rs in rules.items():
        out[t] = []
        for r in rs:
            y = {}
            if r["act"]:
                y["action"] = r["act"]
            if r["from"]["k"] != "none":
                y["from"] = rxgen.pattern(r["from"], r["ci"])
            if r["to"]:
                y["to"] = rxgen.template(r["to"])
            if r["tr"]:
                y["transform"] = r["tr"]
            if r["load"]:
                y["load"] = r["load"]
            out[t].append(y)
    return out


def zq_rx(rng, strong):
    """An accepting expression; all names of ours contain zq in some case."""
    zq = [rxgen.lit("z"), rxgen.lit("q")]
    r = rng.random()
    if strong or r < 0.3:
        ns = list(zq)
        if rng.random() < 0.5:
            ns = [{"k": "bol"}] + ns if rng.random() < 0.5 else [{"k": "bol"}, {"k": "opt", "n": {"k": "any"}}] + ns
        return {"k": "seq", "ns": ns}
    tail, _ = rxgen.gen(rng, LETTERS + "_", depth=1, anchors=False)
    ns = zq + [{"k": "star", "n": {"k": "any"}}] * (rng.random() < 0.5) + [{"k": "grp", "g": 1, "n": strip_groups(tail)}]
    if rng.random() < 0.2:
        ns.append({"k": "eol"})
    if rng.random() < 0.2:
        return {"k": "alt", "ns": [{"k": "seq", "ns": ns}, {"k": "seq", "ns": [rxgen.lit("Z")] + zq[1:] + [rxgen.lit(rng.choice(LETTERS))]}]}
    return {"k": "seq", "ns": ns}


def strip_groups(n):
    n = dict(n)
    if n["k"] == "grp":
        return strip_groups(n["n"])
    if "n" in n:
        n["n"] = strip_groups(n["n"])
    if "ns" in n:
        n["ns"] = [strip_groups(x) for x in n["ns"]]
    return n


def all_names(decls):
    return [n for d in decls for n in [d["td"], d["tag"]] + [m["n"] for m in d["members"]] + d["names"] if n]


def pick_rx(rng, alpha, names, depth=1, want=0.85, **kw):
    """An expression that, most of the time, matches some of the names."""
    for _ in range(12):
        rx, g = rxgen.gen(rng, alpha, depth=rng.randint(0, depth), **kw)
        pat = re.compile(rxgen.render(rx))
        hits = sum(1 for n in names if pat.search(n))
        if rng.random() > want or 0 < hits:
            break
    return rx, g


def gen_selection(rng, decls=()):
    """accept / ignore rules"""
    names = all_names(decls)
    rules = {}
    for t in TARGETS:
        p = {"global": 0.85, "post-global": 0.1, "private": 0.1}.get(t, 0.5)
        if rng.random() > p:
            continue
        rs = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.6:
                rs.append(rule("accept", zq_rx(rng, t == "global" and rng.random() < 0.5), rng.random() < 0.4))
            else:
                for _ in range(12):  # neither nothing nor everything
                    rx, _ = rxgen.gen(rng, LETTERS + "_12", depth=1)
                    hits = sum(1 for n in names if re.search(rxgen.render(rx), n))
                    if 0 < hits <= 0.6 * len(names):
                        break
                rs.append(rule("ignore", rx, rng.random() < 0.2))
        rules[t] = rs
    if not any(r["act"] == "accept" for rs in rules.values() for r in rs):
        rules.setdefault("global", []).insert(0, rule("accept", zq_rx(rng, True), True))
    return rules


def gen_replace(rng, core, names=()):
    """One replacing rule. Expressions never touch the letters of core names
    unless the template puts the whole match back, so that names stay distinct
    most of the time."""
    r = rng.random()
    trs = ["", "lower", "upper", "title", "export", "unexport"]
    if r < 0.12:
        return rule(load="snakecase", tr=rng.choice(["", "", "upper", "unexport"]))
    if r < 0.3:
        # a transform only
        if rng.random() < 0.5:
            return rule(tr=rng.choice(trs[1:]))
        rx, _ = pick_rx(rng, core + "zq_", names, depth=1)
        return rule(frm=rx, tr=rng.choice(trs[1:]), ci=rng.random() < 0.3)
    if r < 0.5:
        # strip or swap a fixed piece
        w = rng.choice(["zw_", "z", "zq_", "_zq", "zq", "^zq", "_$", "__", "_"])
        ns = []
        if w[0] == "^":
            ns.append({"k": "bol"}); w = w[1:]
        eol = w[-1] == "$"
        ns += [rxgen.lit(ch) for ch in w.rstrip("$")]
        if eol:
            ns.append({"k": "eol"})
        to = rng.choice(["", "", "k", "W", "_"])
        return rule("replace", {"k": "seq", "ns": ns}, rng.random() < 0.3, [{"k": "s", "v": to}] if to else [], rng.choice(trs))
    rx, g = pick_rx(rng, core + "zqw_", names, depth=2)
    to = [{"k": "g", "g": 0}]
    if rng.random() < 0.5:
        to.insert(rng.randint(0, 1), {"k": "s", "v": rng.choice(["k", "W", "_", "T1"])})
    if g and rng.random() < 0.5:
        to.append({"k": "g", "g": rng.randint(1, g)})
    return rule("replace", rx, rng.random() < 0.25, to, rng.choice(trs))


def gen_naming(rng, decls, core="xyXY"):
    names = all_names(decls)
    rules = {"global": [rule("accept", rxgen.word("zq"), True)]}
    for t in TARGETS:
        if rng.random() < (0.7 if t == "global" else 0.55):
            for _ in range(rng.randint(1, 2)):
                rs = rules.setdefault(t, [])
                r = gen_replace(rng, core, names)
                rs.insert(rng.randint(0, len(rs)), r)
        if rng.random() < 0.1:
            rules.setdefault(t, []).append(rule(load=rng.choice(["doc.file", "doc.google"])))
    if rng.random() < 0.6:
        rules.setdefault("public", []).append(rule(tr="export"))
    if rng.random() < 0.6:
        rules.setdefault("private", []).append(rule(tr="unexport"))
    return rules


KEYW = ["type", "range", "func", "map", "var", "go", "chan", "package", "select", "interface", "defer", "import"]


class Namer:
    def __init__(self, rng, letters, style="mixed"):
        self.rng, self.letters, self.used, self.style = rng, letters, set(), style

    def core(self):
        rng = self.rng
        return "".join(rng.choice(self.letters) for _ in range(rng.randint(1, 3)))

    def name(self):
        rng = self.rng
        while True:
            segs = [self.core() for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.25:
                segs[-1] += rng.choice("123")
            zq = rng.choice(["zq", "zq", "zq", "Zq", "ZQ"])
            p = rng.random()
            if p < 0.7:
                segs.insert(0, zq)
            elif p < 0.85:
                segs.insert(rng.randint(0, len(segs)), zq)
            else:
                segs[0] = zq + segs[0]
            sep = rng.choice(["_", "_", "_", ""])
            n = sep.join(segs)
            if rng.random() < 0.06:
                n = "_" + n
            if rng.random() < 0.06:
                n = n + "_"
            low = n.lower()
            if low in self.used or n[0].isdigit():
                continue
            self.used.add(low)
            return n

    def small(self, used):
        """a field or parameter name"""
        rng = self.rng
        while True:
            if rng.random() < 0.15:
                n = rng.choice(KEYW)
            else:
                n = "_".join(self.core() for _ in range(rng.randint(1, 2)))
                if rng.random() < 0.2:
                    n = "zw_" + n
                if rng.random() < 0.1:
                    n = "_" + n
            if n.lower() in used or n.lower() == "do" or n in ("if", "for"):
                continue
            used.add(n.lower())
            return n


FT_TYPES = [("int", "int32"), ("short", "int16"), ("float", "float32"), ("double", "float64")]


def ft_code(n):
    out = []
    for _ in range(5):
        out.append(n % 4)
        n //= 4
    return out


def gen_decls(rng, namer, n, kinds=None, files=1, dup=0.0, again_types=True):
    kinds = kinds or ["macro", "enum", "enum", "cvar", "ty", "st", "st", "un", "ft", "fn", "fn", "fn", "sv", "sv", "nv"]
    decls = []
    ident = 0
    base = 700000
    for _ in range(n):
        k = rng.choice(kinds)
        ident += 1
        d = {"k": k, "td": "", "tag": "", "id": ident, "members": [], "names": [], "static": False, "complete": True,
             "file": rng.randrange(files)}
        if k in ("macro", "cvar"):
            d["td"] = namer.name()
            d["id"] = base + ident * 100
            d["static"] = k == "cvar" and rng.random() < 0.2
        elif k == "enum":
            r = rng.random()
            if r < 0.35:
                d["td"] = namer.name()
                if rng.random() < 0.6:
                    d["tag"] = namer.name()
            elif r < 0.7:
                d["tag"] = namer.name()
            if not d["td"] and rng.random() < 0.3:
                d["var"] = namer.name()
            d["members"] = [{"n": namer.name(), "id": base + ident * 100 + j + 1} for j in range(rng.randint(1, 4))]
        elif k == "ty":
            d["td"] = namer.name()
        elif k in ("st", "un"):
            r = rng.random()
            if r < 0.35:
                d["td"] = namer.name()
            elif r < 0.65:
                d["td"], d["tag"] = namer.name(), namer.name()
                if rng.random() < 0.3:
                    d["td"] = d["tag"]
            else:
                d["tag"] = namer.name()
            if k == "st":
                if rng.random() < 0.15 and d["tag"] and d["td"]:
                    d["complete"] = False
                else:
                    used = set()
                    d["names"] = [namer.small(used) for _ in range(rng.randint(1, 3))]
        elif k == "ft":
            d["td"] = namer.name()
            used = set()
            d["names"] = [namer.small(used) for _ in range(5)]
        elif k == "fn":
            d["td"] = namer.name()
            used = set()
            d["names"] = [namer.small(used) for _ in range(rng.randint(0, 3))]
            d["form"] = rng.choice(["", "", "", "", "extern ", "{", "static inline {", "inline ", "static {"])
        elif k == "nv":
            d["td"] = namer.name()
            d["form"] = rng.choice(["extern int %s;", "extern float *%s;", "extern char %s[3];", "static int %s = 4;", "extern void *%s;"])
        elif k == "sv":
            taken = {x["of"] for x in decls if x["k"] == "sv"}
            sts = [x for x in decls if x["k"] in ("st", "un") and x["td"] and x["complete"] and x["td"] not in taken]
            if not sts:
                continue
            d["td"] = namer.name()
            d["of"] = rng.choice(sts)["td"]
        decls.append(d)
        if dup and k in ("fn", "ty", "ft") and rng.random() < dup:
            form = d.get("form", "")
            if form:  # declared again: one of the two is the definition, if any is
                form = rng.choice([form.replace(" {", " ").replace("{", ""), form]) if "{" not in form else form.replace("{", "")
            again = dict(d, file=rng.randrange(files))
            if k == "fn":
                again["form"] = form
                if rng.random() < 0.5:
                    d["form"], again["form"] = again["form"], d["form"]
            decls.append(again)
    for d in decls:
        if d["k"] == "nv" and rng.random() < 0.5:
            before = [x for x in decls[:decls.index(d)] if x["k"] == "enum" and KnownAs(x) and x["file"] == d["file"]]
            if before:
                x = rng.choice(before)
                d["form"] = "extern %s %%s;" % (x["td"] or "enum " + x["tag"])
    if again_types:
        decls = with_aliases(rng, namer, decls)
    for d in decls:
        d["comma"] = rng.random() < 0.3
    return decls


def with_aliases(rng, namer, decls):
    """More declarations of what is declared: further typedefs, tags announced first."""
    out = []
    later = []
    for d in decls:
        word = {"st": "struct", "un": "union", "enum": "enum"}.get(d["k"])
        r = rng.random()
        if not word or not KnownAs(d) or r > 0.45:
            out.append(d)
            if later and rng.random() < 0.5:
                out.append(later.pop(0))
            continue
        tag = word + " " + d["tag"] if d["tag"] else ""
        if tag and d["k"] != "enum" and r < 0.15:
            # announced: struct t; or typedef struct t a;
            a = dict(d, td=namer.name() if rng.random() < 0.6 else "")
            if d["td"] and d["complete"] and rng.random() < 0.5:
                # ... and the struct itself without a typedef
                a["td"], d["td"] = d["td"], ""
            a["text"] = "typedef %s %s;" % (tag, a["td"]) if a["td"] else tag + ";"
            out += [a, d]
        elif r < 0.25:
            a = dict(d, td=namer.name())
            a["text"] = "typedef %s %s;" % (tag if tag and (not d["td"] or rng.random() < 0.6) else d["td"], a["td"])
            a["after"] = True
            out += [d, a]
        else:
            a = dict(d, td=namer.name())
            a["text"] = "typedef %s %s;" % (tag if tag and (not d["td"] or rng.random() < 0.6) else d["td"], a["td"])
            out.append(d)
            later.append(a)
    return out + later


def KnownAs(d):
    return d["td"] or d["tag"]


def c_parts(d):
    """What several declarations can have in common, and the declarator (or None)."""
    k = d["k"]
    if k == "cvar":
        return "%sconst int" % ("static " if d["static"] else ""), "%s = %d" % (d["td"], d["id"])
    if k == "ty":
        return "typedef int", "%s[%d]" % (d["td"], d["id"])
    if k == "ft":
        return "typedef void", "(*%s)(%s)" % (d["td"], ", ".join("%s %s" % (FT_TYPES[c][0], n) for c, n in zip(ft_code(d["id"]), d["names"])))
    if k == "fn":
        return d.get("form", "").replace("{", "") + (d.get("ret") or "int"), "%s(%s)" % (d["td"], ", ".join("int " + n for n in d["names"]) or "void")
    return None


def c_groups(decls):
    """Neighbours that stand in one declaration: int f(void), g(int x);"""
    out = []
    for d in decls:
        if d.get("comma") and d.get("after") and out and out[-1][-1]["id"] == d["id"] and d["k"] == out[-1][-1]["k"] and out[-1][-1]["td"]:
            out[-1].append(d)  # typedef struct t { ... } a, b;
        elif d.get("comma") and out and c_parts(d) and c_parts(out[-1][0]) and c_parts(d)[0] == c_parts(out[-1][0])[0] \
                and not any("{" in x.get("form", "") for x in out[-1] + [d]) and d["td"] not in [x["td"] for x in out[-1]]:
            out[-1].append(d)
        else:
            out.append([d])
    return out


def c_group(ds):
    if len(ds) == 1:
        return c_text(ds[0])
    if not c_parts(ds[0]):
        return c_text(ds[0])[:-1] + "".join(", " + d["td"] for d in ds[1:]) + ";"
    return c_parts(ds[0])[0] + " " + ", ".join(c_parts(d)[1] for d in ds) + ";"


# what stands in a body is nothing that the header declares
BODIES = ["return 0;", "return 0;", "const int zq_in_f = 3; return zq_in_f;", "enum { zq_in_e = 5 }; typedef int zq_in_t; return (zq_in_t)zq_in_e;",
          "struct zq_in_s { int a; } v; v.a = 1; return v.a;", "extern int zq_in_g(void); return 1;", "{ return 2; }"]


def c_text(d, rng=None):
    k = d["k"]
    if "text" in d:
        return d["text"]
    if k == "macro":
        return "#define %s %d" % (d["td"], d["id"])
    if c_parts(d):
        body = "{ %s }" % BODIES[d["id"] % len(BODIES)] if "{" in d.get("form", "") else ";"
        return " ".join(c_parts(d)) + body
    if k == "enum":
        body = "enum %s{ %s }" % (d["tag"] + " " if d["tag"] else "", ", ".join("%s = %d" % (m["n"], m["id"]) for m in d["members"]))
        return ("typedef %s %s;" % (body, d["td"])) if d["td"] else body + (" " + d["var"] if d.get("var") else "") + ";"
    if k in ("st", "un"):
        w = "struct" if k == "st" else "union"
        if k == "st" and not d["complete"]:
            return "typedef struct %s %s;" % (d["tag"], d["td"])
        if k == "st":
            fs = " ".join("int %s%s;" % (f, "[%d]" % d["id"] if j == 0 else "") for j, f in enumerate(d["names"]))
        else:
            fs = "int a[%d];" % d["id"]
        body = "%s %s{ %s }" % (w, d["tag"] + " " if d["tag"] else "", fs)
        return ("typedef %s %s;" % (body, d["td"])) if d["td"] else body + ";"
    if k == "nv":
        return d["form"] % d["td"]
    if k == "sv":
        return "extern %s %s;" % (d["of"], d["td"])
    raise ValueError(k)


def observe(rep, decls):
    """A goinspect report in the terms of Inventory.tla."""
    out = {"const": [], "types": [], "main": []}
    byval = {}
    for d in decls:
        if d["k"] in ("macro", "cvar"):
            byval[str(d["id"])] = d["id"]
        for m in d["members"]:
            byval[str(m["id"])] = m["id"]
    cname = {}
    for d in decls:
        if d["k"] in ("st", "un"):
            w = "struct_" if d["k"] == "st" else "union_"
            if d["td"]:
                cname[d["td"]] = d["id"]
            if d["tag"]:
                cname.setdefault(w + d["tag"], d["id"])
    fcode = {}
    for d in decls:
        if d["k"] == "ft":
            fcode[tuple(FT_TYPES[c][1] for c in ft_code(d["id"]))] = d["id"]
    fnames = {d["td"]: d["id"] for d in decls if d["k"] == "fn"}
    items = []
    for c in rep["consts"]:
        if c["file"] == "const.go" and c["kind"] == "const":
            items.append((c["line"], "const", {"t": "const", "id": byval.get(c["value"], -1), "n": c["name"], "sub": []}))
        elif c["kind"] == "var" and c["file"] not in ("const.go", "types.go", "cgo_helpers.go"):
            items.append((c["line"], "main", {"t": "var", "id": -2, "n": c["name"], "sub": [], "vt": c["type"]}))
        elif c["kind"] == "var" and c["file"] == "const.go":
            items.append((c["line"], "const", {"t": "var", "id": -1, "n": c["name"], "sub": []}))
    sizeofs = {c["name"]: c["expr"] for c in rep["consts"]}
    for t in rep["types"]:
        if t["file"] == "const.go":
            items.append((t["line"], "const", {"t": "type", "id": 0, "n": t["name"], "sub": []}))
        elif t["file"] == "types.go":
            ident, sub = -1, []
            if t["kind"] == "array":
                if t["arrlen"].isdigit():
                    ident = int(t["arrlen"])
                else:
                    m = re.match(r"unsafe\.Sizeof\(C\.(\w+)\{\}\)", sizeofs.get(t["arrlen"], ""))
                    ident = cname.get(m.group(1), -1) if m else -1
            elif t["kind"] == "struct":
                fs = [f for f in t["fields"] if not re.match(r"(ref|allocs)[0-9a-f]{1,8}$", f["name"])]
                m = re.match(r"\[(\d+)\]", fs[0]["type"]) if fs else None
                ident = int(m.group(1)) if m else -1
                sub = [f["name"] for f in fs]
            elif t["kind"] == "selector":
                ident = cname.get(t["expr"][2:], -1)
            elif t["kind"] == "func":
                ident = fcode.get(tuple(f["type"] for f in t["fields"]), -1)
                sub = [f["name"] for f in t["fields"]]
            items.append((t["line"], "types", {"t": "type", "id": ident, "n": t["name"], "sub": sub}))
    for f in rep["funcs"]:
        if f["file"] == "cgo_helpers.go":
            continue
        ids = [fnames[x] for x in f["ccalls"] if x in fnames]
        items.append((f["line"], "main", {"t": "func", "id": ids[0] if len(ids) == 1 else -1, "n": f["name"], "sub": [p["name"] for p in f["params"]]}))
    items.sort(key=lambda x: x[0])
    for _, f, it in items:
        out[f].append(it)
    # variables have no content of their own: told by position among the variables of the header
    return out
