"""Headers of types, functions and structs as models for Types.tla, with pointer
and type tips."""
import json
import rxgen

CNAME = {"char": "char", "schar": "signed char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short",
         "int": "int", "uint": "unsigned int", "long": "long", "ulong": "unsigned long", "llong": "long long", "ullong": "unsigned long long",
         "float": "float", "double": "double", "ldouble": "long double",
         "cfloat": "float _Complex", "cdouble": "double _Complex", "bool": "_Bool", "void": "void"}
ALT = {"short": ["short int", "signed short"], "ushort": ["unsigned short int"], "int": ["signed int", "signed"], "uint": ["unsigned"],
       "long": ["long int", "signed long"], "ulong": ["unsigned long int"], "cfloat": ["_Complex float"], "cdouble": ["_Complex double"], "llong": ["long long int"], "ullong": ["unsigned long long int"]}
SCALARS = [b for b in CNAME if b != "void"]


def ct(b, p=0, c=False, arr=()):
    return {"b": b, "p": p, "c": c, "arr": list(arr)}


def spell(rng, t, name, env):
    b = t["b"]
    s = rng.choice([CNAME[b]] * 3 + ALT.get(b, [])) if b in CNAME else env[b].get("tagkw", "") + b
    if t["c"]:
        s = rng.choice(["const " + s, s + " const"])
    stars = t["p"] + (1 if env.get(b, {}).get("fntype") else 0)
    return s + " " + "*" * stars + name + "".join("[%d]" % n for n in t["arr"])


def gen_env(rng, structs=False):
    env, lines = {}, []
    n = [0]

    def name(acc, stem):
        n[0] += 1
        return ("zq" if acc else "hx") + stem + str(n[0])

    def scalar():
        return rng.choice(SCALARS)
    for _ in range(rng.randint(1, 4)):  # accepted aliases of scalars
        a = name(True, "Al")
        env[a] = {"k": "alias", "acc": True, "to": ct(scalar())}
    for _ in range(rng.randint(1, 4)):  # aliases that are looked through
        a = name(False, "al")
        base = rng.choice([scalar(), scalar(), "void"] + [x for x in env if env[x]["k"] == "alias" and env[x]["to"]["p"] == 0])
        p = rng.choice([0, 0, 1, 1, 1])
        if base == "void" or (base in env and env[base]["to"]["b"] == "void"):
            p = max(p, 1)
        if p and "Al" not in a and rng.random() < 0.5 and base != "void":
            a = name(True, "Ap")
        env[a] = {"k": "alias", "acc": a[0] == "z", "to": ct(base, p, p > 0 and base == "char" and rng.random() < 0.5)}
    if rng.random() < 0.5:  # alias of an alias, to be named
        base = rng.choice([x for x in env if env[x]["k"] == "alias" and env[x]["to"]["p"] == 0])
        env[name(True, "Al")] = {"k": "alias", "acc": True, "to": ct(base)}
    for _ in range(rng.choice([0, 0, 1, 2])):  # of arrays
        base = rng.choice([scalar()] + [x for x in env if env[x]["k"] == "alias" and env[x]["to"]["p"] == 0 and not env[x]["to"]["arr"]])
        a = name(rng.random() < 0.5, "Ar")
        env[a] = {"k": "alias", "acc": a[0] == "z", "to": ct(base, 0, False, [rng.randint(1, 4)])}
    if 0:
        env[name(True, "Al")] = {"k": "alias", "acc": True, "to": ct(base)}
    kinds = (["struct", "structtag", "struct", "struct", "structtag"] if structs else []) + ["struct", "struct", "structtag", "opaque", "opaquetag", "handle", "union", "enum", "callback"]
    for k in rng.sample(kinds, rng.randint(6, 11) if structs else rng.randint(3, 7)):
        a = name(not structs or k == "callback" or rng.random() < 0.8, {"struct": "St", "structtag": "Sg", "opaque": "Op", "opaquetag": "Oq", "handle": "Hd", "union": "Un", "enum": "En", "callback": "Cb"}[k])
        env[a] = {"k": k.replace("tag", ""), "acc": a[0] == "z", "cgo": "struct_" + a if "tag" in k else a, "mem": a, "to": ct("void"), "form": k}
    for a in list(env):
        e = env[a]
        e.setdefault("cgo", a)
        e.setdefault("mem", a)
        f = e.get("form")
        if e["k"] == "alias":
            lines.append("typedef %s;" % spell(rng, e["to"], a, env))
        elif f == "struct":
            e["fields"] = []
            lines.append((a, rng.choice(["typedef struct %s_s {%%s} %s;" % (a, a), "typedef struct {%%s} %s;" % a, "typedef struct %s {%%s} %s;" % (a, a)])))
        elif f == "structtag":
            e["fields"] = []
            e["tagkw"] = "struct "
            lines.append((a, "struct %s {%%s};" % a))
        elif f == "callback":
            e["fntype"] = rng.random() < 0.3  # a function, not a pointer to one
        elif f == "opaque":
            lines.append(rng.choice(["typedef struct %s_s %s;" % (a, a), "typedef struct %s %s;" % (a, a)]))
        elif f == "opaquetag":
            e["tagkw"] = "struct "
            lines.append("struct %s;" % a)
        elif f == "handle":
            lines.append("typedef struct %s_T *%s;" % (a, a))
        elif f == "union":
            lines.append(rng.choice(["typedef union %s_u {int i; double d;} %s;" % (a, a), "typedef union {char c[8]; float d;} %s;" % a]))
        elif f == "enum":
            lines.append(rng.choice(["typedef enum %s_e {%s_A, %s_B} %s;" % (a, a, a, a), "typedef enum {%s_C} %s;" % (a, a)]))
    return env, lines


def isarr(env, b):
    return b in env and env[b]["k"] == "alias" and env[b]["to"]["arr"] != []


def leaf(env, b):
    """the type under aliases and the pointers of these"""
    n = 0
    while b in env and env[b]["k"] == "alias":
        n += env[b]["to"]["p"]
        b = env[b]["to"]["b"]
    return b, n


def gen_type(rng, env, ret=False, field=False):
    while True:
        pool = SCALARS + ["char"] * 6 + ["void"] * 2 + list(env) * 2
        b = rng.choice(pool)
        e = env.get(b, {"k": "plain"})
        p = rng.choice([0, 0, 0, 1, 1, 1, 2, 3])
        if e["k"] == "callback" or isarr(env, b):
            p = 0
        if ret and (isarr(env, b) or e.get("fntype")):
            continue
        if e["k"] == "opaque" and p == 0:
            p = 1
        if b == "void" and p == 0:
            continue
        if field and e["k"] != "alias" and b in env and p == 0 and e["k"] == "opaque":
            continue
        lf, lp = leaf(env, b)
        c = p > 0 and not (field and lf in ("char", "uchar")) and (e["k"] != "alias" or e["to"]["p"] == 0) and b != "void" and rng.random() < 0.35
        arr = []
        if field and p + lp < 2 and rng.random() < 0.3 and e["k"] not in ("callback",):
            arr = [rng.randint(1, 4) for _ in range(rng.choice([1, 1, 2]))]
        elif not field and not ret and rng.random() < 0.15 and e["k"] not in ("callback",) and not isarr(env, b) and p + lp < 3 and not (e["k"] == "opaque" and p == 0):
            arr = [rng.randint(1, 4)] + ([rng.randint(1, 4)] if b in SCALARS and p == 0 and rng.random() < 0.4 else [])
            c = c or p == 0 and b != "void" and e["k"] != "alias" and not (len(arr) > 1 and b in ("char", "uchar")) and rng.random() < 0.4
        return ct(b, p, c, arr)


# what the configured type map may say: the C spec of each base, the Go spec of each type
CSPEC = {"char": {"base": "char"}, "schar": {"base": "char", "signed": True}, "uchar": {"base": "char", "unsigned": True},
         "short": {"base": "int", "short": True}, "ushort": {"base": "int", "short": True, "unsigned": True}, "int": {"base": "int"},
         "uint": {"base": "int", "unsigned": True}, "long": {"base": "int", "long": True}, "ulong": {"base": "int", "long": True, "unsigned": True},
         "llong": {"base": "long", "long": True}, "ullong": {"base": "long", "long": True, "unsigned": True}, "float": {"base": "float"},
         "double": {"base": "double"}, "ldouble": {"base": "double", "long": True},
         "cfloat": {"base": "float", "complex": True}, "cdouble": {"base": "double", "complex": True}, "bool": {"base": "_Bool"}}
GOSPEC = {"int": {"base": "int"}, "uint": {"base": "int", "unsigned": True}, "int8": {"base": "int", "bits": 8}, "uint8": {"base": "int", "bits": 8, "unsigned": True},
          "int16": {"base": "int", "bits": 16}, "uint32": {"base": "int", "bits": 32, "unsigned": True}, "int64": {"base": "int", "bits": 64}, "float32": {"base": "float", "bits": 32},
          "float64": {"base": "float", "bits": 64}, "byte": {"base": "byte"}, "rune": {"base": "rune"}, "bool": {"base": "bool"}, "string": {"base": "string"}}


def gen_tmap(rng, consts):
    """consts: also of const types"""
    keys = {}
    for _ in range(rng.choice([1, 2, 3, 5])):
        b = rng.choice(SCALARS)
        p = 1 if "char" in b and rng.random() < 0.6 else 0
        keys[b, p, consts and rng.random() < 0.4] = "string" if p else rng.choice([g for g in GOSPEC if g != "string"])
    return [{"b": b, "p": p, "c": c, "go": g} for (b, p, c), g in keys.items()]


def with_tmap(config, tmap):
    """the configuration as text"""
    text = json.dumps(config)
    if tmap:
        ent = ", ".join("? %s : %s" % (json.dumps(dict(CSPEC[t["b"]], **({"pointers": t["p"]} if t["p"] else {}), **({"const": True} if t["c"] else {}))),
                                       json.dumps(GOSPEC[t["go"]])) for t in tmap)
        text = text.replace('"TRANSLATOR": {', '"TRANSLATOR": {"Typemap": {%s}, ' % ent, 1)
    return text


TIPS = ["arr", "ref", "sref"]


def gen_tips(rng, scopes, names, values, selfvalues):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        nm = rng.choice(names)
        r = rng.random()
        if r < 0.3:
            tg = {"k": "seq", "ns": [{"k": "bol"}] + [rxgen.lit(x) for x in nm] + [{"k": "eol"}]}
        elif r < 0.5:
            tg = rxgen.word("zq")
        else:
            j = rng.randint(2, max(2, len(nm) - 1))
            tg = {"k": "seq", "ns": [rxgen.lit(x) for x in nm[j - 2:j + rng.randint(0, 2)]]}
        out.append({"scope": rng.choice(scopes), "target": tg, "tips": [rng.choice([""] + values) for _ in range(rng.choice([0, 0, 1, 2, 3, 4]))],
                    "self": rng.choice(["", ""] + selfvalues), "dflt": rng.choice(["", "", ""] + selfvalues)})
    return out


def tips_config(tips):
    out = {}
    for t in tips:
        y = {"target": rxgen.render(t["target"])}
        if t["tips"]:
            y["tips"] = [x if x else 0 for x in t["tips"]]
        if t["self"]:
            y["self"] = t["self"]
        if t["dflt"]:
            y["default"] = t["dflt"]
        out.setdefault(t["scope"], []).append(y)
    return out


def gen_case(rng, structs=False):
    env, lines = gen_env(rng, structs)
    opts = {"constchar": rng.random() < 0.6, "constuchar": rng.random() < 0.3, "long64": True,
            "tmap": gen_tmap(rng, not structs) if rng.random() < 0.3 else []}
    arch = ""
    if rng.random() < 0.25:
        arch = rng.choice(["386", "arm", "amd64", "arm64"])
        opts["long64"] = arch.endswith("64")
    fns = []

    def fn(name):
        ret = ct("void") if rng.random() < 0.25 else gen_type(rng, env, ret=True)
        return {"name": name, "ret": ret, "params": [{"name": "x%d" % j, "t": gen_type(rng, env)} for j in range(rng.choice([0, 1, 2, 2, 3, 4]))]}

    def fdecl(f, what):
        anon = rng.random() < 0.2  # parameters without names are called arg0, arg1, ...
        for j, p in enumerate(f["params"]):
            if anon and rng.random() < 0.7:
                p["name"] = "arg%d" % j
        ps = ", ".join(spell(rng, p["t"], "" if p["name"][0] == "a" else p["name"], env) for p in f["params"]) or rng.choice(["void", "void"])
        return "%s(%s);" % (spell(rng, f["ret"], what, env), ps)
    out = []
    cbstruct = rng.random() < 0.5  # callbacks may take structs, or structs hold callbacks

    def usable(v, a, k):
        return (v["k"] != "struct" or v.get("ready")) and (v["k"] != "callback" or not cbstruct)
    for l in lines:
        if isinstance(l, tuple):
            a, fmt = l
            fs = []
            for j in range(rng.randint(1, 5)):
                if rng.random() < 0.04:
                    continue
                t = gen_type(rng, {k: v for k, v in env.items() if usable(v, a, k)}, field=True)
                fs.append({"name": "m%d" % j, "t": t})
            if not fs:
                fs.append({"name": "m0", "t": ct("int")})
            env[a]["fields"] = fs
            env[a]["ready"] = True
            out.append(fmt % " ".join(spell(rng, f["t"], f["name"], env) + ";" for f in fs))
        else:
            out.append(l)
    cbs = []
    for a in env:
        if env[a]["k"] == "callback":
            f = fn(a)
            no = ("callback",) if cbstruct else ("callback", "struct")
            f["params"] = [p for p in f["params"] if env.get(p["t"]["b"], {}).get("k") not in no]
            if env.get(f["ret"]["b"], {}).get("k") in no:
                f["ret"] = ct("int")
            cbs.append(f)
    # callbacks first need the other types
    stl = [l for l in out if "{" in l and l.startswith(("struct", "typedef struct"))]
    out = [l for l in out if l not in stl]
    cb = ["typedef " + fdecl(f, rng.choice(["%s", "(%s)"]) % f["name"] if env[f["name"]]["fntype"] else "(*%s)" % f["name"]) for f in cbs]
    out += stl + cb if cbstruct else cb + stl
    for j in range(0 if structs else rng.randint(3, 9)):
        f = fn("zqFn%d" % j)
        fns.append(f)
        out.append(fdecl(f, f["name"]))
    for a in env:  # a function named as the tag of the struct it returns
        if not structs and env[a].get("form") == "structtag" and env[a]["acc"] and rng.random() < 0.4:
            f = dict(fn(a), ret=ct(a, rng.choice([0, 0, 0, 1])))
            fns.append(f)
            out.append(fdecl(f, a))
    flat = {p["t"]["b"] for f in fns + cbs for p in f["params"] if len(p["t"]["arr"]) > 1}  # no strings for what is in arrays of arrays
    opts["tmap"] = [t for t in opts["tmap"] if t["p"] == 0 or t["b"] not in flat]
    names = [f["name"] for f in fns + cbs]
    tn = list(env)
    sc = ["type", "type", "any", "struct"] if structs else ["function", "function", "any", "type"]
    tv = ["plain", "named"] + ["string"] * (not opts["constuchar"] and not structs)
    sn = [a for a in env if env[a]["k"] == "struct"]
    ptips = gen_tips(rng, sc, sn * 4 or ["zq"] if structs else names + tn, TIPS, TIPS)
    for f in fns:
        if f["params"] and rng.random() < 0.12:  # a receiver
            tp = [rng.choice([""] + TIPS) for _ in f["params"]]
            tp[rng.randrange(len(tp))] = "inst"
            ptips.insert(0, {"scope": "function", "target": {"k": "seq", "ns": [{"k": "bol"}] + [rxgen.lit(x) for x in f["name"]] + [{"k": "eol"}]}, "tips": tp, "self": rng.choice(["", "ref"]), "dflt": rng.choice(["", "arr"])})
    return {"env": env, "opts": opts, "arch": arch, "fns": fns, "cbs": cbs, "lines": out,
            "structs": [{"name": a, "fields": env[a]["fields"]} for a in sn],
            "ptips": ptips,
            "ttips": gen_tips(rng, sc, sn * 4 or ["zq"] if structs else names + tn, tv, ["plain", "named"]),
            "mtips": gen_tips(rng, ["any"], sn * 2 + tn, ["raw"], ["raw"]) if rng.random() < (0.6 if structs else 0.2) else []}
