"""Packages of C structs with programs for Structs.tla: layouts, static C objects and
proposed operations for GenStructs.tla, and the header, the C code and the Go code that
carry out the operations it chose."""
import json

# leaf type: (C, how Go declares an element, C initializers of the tokens 0..)
LEAVES = {
    "char": ("char", "byte", ["0", "'q'", "127"]), "schar": ("signed char", "int8", ["0", "-128", "127", "5"]), "uchar": ("unsigned char", "byte", ["0", "255", "1"]),
    "short": ("short", "int16", ["0", "-32768", "32767"]), "ushort": ("unsigned short", "uint16", ["0", "65535", "256"]),
    "int": ("int", "int32", ["0", "-2147483647-1", "2147483647", "7", "-1"]), "uint": ("unsigned int", "uint32", ["0", "4294967295u", "65536u"]),
    "long": ("long", "int64", ["0", "-9223372036854775807L-1", "9223372036854775807L", "-1"]), "ullong": ("unsigned long long", "uint64", ["0", "18446744073709551615ull", "4294967296ull"]),
    "float": ("float", "float32", ["0", "1.5f", "-3.25e10f"]), "double": ("double", "float64", ["0", "-0.1", "1e300"]), "bool": ("_Bool", "bool", ["0", "1"]),
    "cfloat": ("float _Complex", "complex64", ["0", "__builtin_complex(1.5f,-2.0f)", "__builtin_complex(-0.25f,3.0f)"]),
    "cdouble": ("double _Complex", "complex128", ["0", "__builtin_complex(-0.1,1e300)", "__builtin_complex(2.0,0.5)"]),
    "en": ("zqEn", "zqEn", ["0", "ZQ_B", "ZQ_C"]), "un": ("zqUn", "zqUn", ["{{0}}", "{{1,2,3,4,5,6,7,8}}", "{{255,0,0,0,0,0,0,128}}"]),
    "ha": ("zqHa", "zqHa", ["0", "(zqHa)&zqrt_pool[1]", "(zqHa)&zqrt_pool[2]"]), "vo": ("void*", "unsafe.Pointer", ["0", "&zqrt_pool[3]", "&zqrt_pool[1]"]),
    "al": ("zqAl", "zqAl", ["0", "-2", "32767"]),
    "hx": ("hxEn", None, ["0", "HX_B"]),
}
ARRAYS = {  # C type of the element, dimensions, tokens
    "nm": ("char", "[4]", ["{0}", "{'a','b','c',0}", "{1,2,3,4}"]), "m2": ("unsigned short", "[2][3]", ["{{0}}", "{{1,2,3},{4,5,65535}}"]),
    "ia": ("int", "[3]", ["{0}", "{1,-2,3}", "{-1,-1,-1}"]), "ua": ("zqUn", "[2]", ["{{{0}}}", "{{{1}},{{0,0,0,0,0,0,0,9}}}"]),
    "haa": ("zqHa", "[2]", ["{0}", "{0,(zqHa)&zqrt_pool[1]}"]), "da": ("double", "[2]", ["{0}", "{-1.5,2.25}"]), "ena": ("zqEn", "[2]", ["{0}", "{ZQ_C,ZQ_B}"]),
}
SLICES = ["cfloat", "cdouble", "uchar", "short", "int", "uint", "long", "ullong", "float", "double", "bool", "en", "un", "ha", "vo", "ushort", "schar"]


def toks(ty):
    return (LEAVES.get(ty) or ARRAYS[ty])[2]


def gen_layout(rng):
    """types: [{name, fields: [{name, k, ty, t, l, n, m, tip}]}]"""
    types = []
    for t in range(1, rng.choice([2, 3, 3, 4]) + 1):
        fs = []
        for _ in range(rng.randint(2, 6) if t == 1 else rng.randint(1, 3)):
            k = rng.choice(["v", "v", "v", "arr", "sl", "sl", "lsl", "str", "str", "ss", "hid", "pi"])
            if k == "v":
                fs.append({"k": "v", "ty": rng.choice([x for x in LEAVES if x != "hx"])})
            elif k == "arr":
                fs.append({"k": "v", "ty": rng.choice(list(ARRAYS))})
            elif k == "hid":
                fs.append({"k": "hid", "ty": "hx"})
            elif k in ("sl", "pi"):
                fs.append({"k": "sl", "ty": rng.choice(SLICES)})
            elif k == "lsl":
                fs += [{"k": "sl", "ty": rng.choice(SLICES), "l": len(fs) + 2}, {"k": "len", "ty": "int"}]
            else:
                fs.append({"k": k, "ty": ""})
        if t > 1:
            for _ in range(rng.randint(1, 3)):
                k = rng.choice(["ref", "ref", "val", "vs", "vs", "va", "self"])
                if k == "self":
                    fs.append({"k": "ref", "t": t})
                else:
                    fs.append({"k": k, "t": rng.randint(1, t - 1), "n": 2 if k == "va" else 0})
        elif rng.random() < 0.5:
            fs.append({"k": "ref", "t": 1})
        for j, f in enumerate(fs):
            f.setdefault("l", 0), f.setdefault("t", 0), f.setdefault("n", 0), f.setdefault("ty", "")
            f["name"] = "%s%d" % (rng.choice("abcfgmx"), j + 1)
            f["m"] = len(toks(f["ty"])) - 1 if f["ty"] else 0
        types.append(fs)
    return types


def blocks_of(types, t):
    n = 1
    for f in types[t - 1]:
        if f["k"] == "val":
            n += blocks_of(types, f["t"])
        elif f["k"] == "va":
            n += 1 + f["n"] * blocks_of(types, f["t"])
    return n


def gen_statics(rng, types):
    """Objects in the order of GenStructs.tla, each with its block number"""
    out, top = [], 0

    def add(size, **kw):
        nonlocal top
        o = {"what": "", "t": 0, "f": 0, "n": 0, "vals": [], "at": [], "b": top + 1}
        o.update(kw)
        out.append(o)
        top += size
        return o["b"]
    texts = [add(1, what="text", vals=[s]) for s in ("one", "", "three")]
    for _ in range(2):
        add(1, what="ptrs", at=[rng.choice(texts + [0]) for _ in range(3)])
    for t, fs in enumerate(types, 1):
        for j, f in enumerate(fs, 1):
            if f["k"] == "sl":
                for _ in range(2):
                    add(1, what="data", t=t, f=j, vals=[str(rng.randint(0, f["m"])) for _ in range(3)])
    for t in range(1, len(types) + 1):
        add(1 + 3 * blocks_of(types, t), what="arr", t=t, n=3)
        for _ in range(2):
            add(blocks_of(types, t), what="struct", t=t)
    return out


OPS = ["make"] * 4 + ["set"] * 16 + ["call"] * 7 + ["callv"] * 2 + ["back"] * 2 + ["giv"] * 2 + ["cset"] * 5 + ["many"] * 2 + ["take"] * 4 + \
      ["deref"] * 7 + ["many"] * 4 + ["take"] * 4 +["free"] * 4 + ["show"] * 7 + ["reset"] * 2 + ["audit"] * 2


def gen_prog(rng, n):
    dice = lambda: [rng.randrange(0, 9973) for _ in range(14)]
    style = rng.choice(["mixed", "mixed", "noleak", "wrap"])
    ops = [{"op": "make", "d": dice()} for _ in range(rng.randint(2, 5))] if style != "wrap" else []
    ops += [{"op": "set", "d": dice()} for _ in range(rng.randint(0, 12))] if ops else []
    pool = [o for o in OPS if style != "noleak" or o not in ("callv", "many", "reset")]
    while len(ops) < n:
        o = rng.choice(pool)
        d = dice()
        ops.append({"op": o, "d": d})
        if o in ("deref", "many") and rng.random() < 0.7:
            ops.append({"op": "show", "d": d})
        if o == "cset" and rng.random() < 0.5:
            ops += [{"op": "deref", "d": dice()}, {"op": "call", "d": dice()}]
    for v in range(24):
        ops.append({"op": "free", "d": [v] + dice()})
    ops.append({"op": "audit", "d": dice()})
    return ops


def gen_package(rng, progs=8, length=70):
    types = gen_layout(rng)
    return {"types": types, "tags": rng.randrange(2), "statics": gen_statics(rng, types), "progs": [gen_prog(rng, rng.randint(length // 2, length)) for _ in range(progs)]}


def tla_case(c):
    return {"types": [[{k: f[k] for k in ("k", "t", "l", "n", "m")} for f in fs] for fs in c["types"]], "statics": c["statics"], "progs": c["progs"]}


# --------------------------------------------------------------- concretize
def cdecl(f):
    n = f["name"]
    if f["k"] in ("v", "hid", "len"):
        if f["ty"] in ARRAYS:
            return "%s %s%s;" % (ARRAYS[f["ty"]][0], n, ARRAYS[f["ty"]][1])
        return "%s %s;" % (LEAVES[f["ty"]][0], n)
    if f["k"] == "sl":
        return "%s *%s;" % (LEAVES[f["ty"]][0], n)
    if f["k"] == "str":
        return "char *%s;" % n
    if f["k"] == "ss":
        return "char **%s;" % n
    return {"ref": "%%(s)szqT%d *%s;", "val": "zqT%d %s;", "vs": "zqT%d *%s;", "va": "zqT%d %s[" + str(f["n"]) + "];"}[f["k"]] % (f["t"], n)


def header(c):
    h = ["#ifndef FOO_H", "#define FOO_H", "typedef enum zqEn_e { ZQ_A, ZQ_B, ZQ_C } zqEn;", "typedef enum hxEn_e { HX_A, HX_B } hxEn;",
         "typedef union zqUn_u { unsigned char b[8]; long long i; } zqUn;", "typedef struct zqHa_T *zqHa;", "typedef short zqAl;"]
    for t, fs in enumerate(c["types"], 1):
        me = any(f["k"] == "ref" and f["t"] == t for f in fs)
        h.append("typedef struct zqT%d%s { %s } zqT%d;" % (t, "" if me or c.get("tags", 0) != 1 else "_s", " ".join(cdecl(f) % {"s": "struct " if f["t"] == t else ""} for f in fs), t))
    for t in range(1, len(c["types"]) + 1):
        h += ["void zqUse%d(zqT%d *x);" % (t, t), "void zqVal%d(zqT%d x);" % (t, t), "zqT%d *zqGet%d(void);" % (t, t), "zqT%d zqGiv%d(void);" % (t, t),
              "void zqMany%d(zqT%d *x, int n);" % (t, t)]
    return "\n".join(h + ["#endif", ""])


def config(c):
    ptr, typ, lens = [], [], {}
    for t, fs in enumerate(c["types"], 1):
        ptr.append({"target": "^zqT%d$" % t, "tips": ["ref" if f["k"] == "ref" else "0" for f in fs]})
        for f in fs:
            if f["l"]:
                lens["zqT%d.%s" % (t, f["name"])] = fs[f["l"] - 1]["name"]
    T = {"Rules": {"global": [{"action": "accept", "from": "^zq"}, {"action": "accept", "from": "^ZQ"}]}, "LenFields": lens,
         "PtrTips": {"function": [{"target": "^zq(Use|Get)", "tips": ["ref"], "self": "ref"}], "struct": ptr}}
    y = json.dumps({"GENERATOR": {"PackageName": "foo", "Includes": ["foo.h"]}, "PARSER": {"SourcesPaths": ["foo.h"]}, "TRANSLATOR": T})
    return y[:-2] + ', "Typemap": {? {"base": "char", "pointers": 1} : {"base": "string"}}}}'


def walk(c, t, path, expr, blk=None):
    """the C expression and the type of leaf at a path from an expression of struct type t"""
    k, f = "struct", None
    for j in path:
        if k == "struct":
            f = c["types"][t - 1][j - 1]
            expr += "." + f["name"]
            k = f["k"]
            if k in ("ref", "val"):
                t = f["t"]
            if k == "ref":
                k, last = "struct", expr
                expr = "(*%s)" % expr
            elif k == "val":
                k = "struct"
        elif k in ("va", "vs"):
            expr, k, t = expr + "[%d]" % j, "struct", f["t"]
        elif k == "ss":
            expr, k = expr + "[%d]" % j, "text"
        elif k == "sl":
            expr, k = expr + "[%d]" % j, "elem"
    return expr, f


def last_ptr(expr):
    """without the dereferencing that walk added for a pointer to a struct"""
    return expr[2:-1] if expr.startswith("(*") and expr.endswith(")") and balanced(expr[2:-1]) else expr


def balanced(s):
    d = 0
    for ch in s:
        d += (ch == "(") - (ch == ")")
        if d < 0:
            return False
    return d == 0


def ccode(c, p, ev, base, t):
    out = []
    for l in ev.get("looks", []):
        e, f = walk(c, t, l["path"][1:] if ev["op"] == "many" else l["path"], base + "[%d]" % l["path"][0] if ev["op"] == "many" else base)
        if l["c"] == "read" and f["k"] == "len":
            out.append("zqrt_i(%s);" % e)
        elif l["c"] == "read":
            out.append("zqrt_read(%s,&%s,sizeof(%s));" % ("zq_" + f["ty"], e, e))
        elif l["c"] == "text":
            out.append("zqrt_t(%s);" % e)
        elif l["c"] == "null":
            out.append("zqrt_null(%s);" % last_ptr(e))
        else:
            out.append("zqrt_state(%s,%d,%d);" % (last_ptr(e), l["b"], l["r"] == "heap"))
    for w in ev.get("pokes", []):
        e, f = walk(c, t, w["path"][1:] if ev["op"] == "many" else w["path"], base + "[%d]" % w["path"][0] if ev["op"] == "many" else base)
        if w["k"] == "v":
            out.append("memcpy(&%s,zqrt_val(zq_%s,%s),sizeof(%s));" % (e, f["ty"], w["v"], e))
        elif w["k"] == "len":
            out.append("%s = %s;" % (e, w["v"]))
        else:
            out.append("%s = %s;" % (last_ptr(e), "0" if w["k"] == "null" else "(void*)%s" % sname(c, p, w["b"])))
    return " ".join(out)


def sname(c, p, b):
    o = next(o for o in c["statics"] if o["b"] == b)
    return ("&" if o["what"] == "struct" else "") + "zqs_%d_%d" % (p, b)


def goexpr(c, base, t, path):
    k, f = "struct", None
    for j in path:
        if k == "struct":
            f = c["types"][t - 1][j - 1]
            base += "." + f["name"]
            k = f["k"]
            if k == "val":
                k, t = "struct", f["t"]
        else:
            base, k, t = base + "[%d]" % j, "struct", f["t"]
    return base, f


def concretize(c, evs):
    """evs: for each program its events in order. The C and Go code, and what must be said for each event."""
    used = sorted({f["ty"] for fs in c["types"] for f in fs if f["ty"]})
    C = [CHEAD]
    for ty in used:
        if ty in ARRAYS:
            C.append("typedef %s zqa_%s%s; static zqa_%s zqv_%s[] = {%s};" % (ARRAYS[ty][0], ty, ARRAYS[ty][1], ty, ty, ",".join(toks(ty))))
        else:
            C.append("static %s zqv_%s[] = {%s};" % (LEAVES[ty][0], ty, ",".join(toks(ty))))
    C.append("enum { zq_0 = -1 %s };" % "".join(", zq_" + ty for ty in used))
    C.append("struct zqrt_type { const void *p; int size, n; } zqrt_types[] = {%s};" % ",".join("{zqv_%s,sizeof zqv_%s[0],%d}" % (ty, ty, len(toks(ty))) for ty in used))
    C.append(CMID)
    for p in range(len(evs)):
        for o in c["statics"]:
            nm = "zqs_%d_%d" % (p, o["b"])
            if o["what"] == "text":
                C.append('static char %s[] = "%s";' % (nm, o["vals"][0]))
            elif o["what"] == "ptrs":
                C.append("static char *%s[] = {%s};" % (nm, ",".join("zqs_%d_%d" % (p, b) if b else "0" for b in o["at"])))
            elif o["what"] == "data":
                ty = c["types"][o["t"] - 1][o["f"] - 1]["ty"]
                C.append("static %s %s[] = {%s};" % (LEAVES[ty][0], nm, ",".join(toks(ty)[int(v)] for v in o["vals"])))
            elif o["what"] == "arr":
                C.append("static zqT%d %s[%d];" % (o["t"], nm, o["n"]))
            else:
                C.append("static zqT%d %s;" % (o["t"], nm))
    use, val, get, giv, many = [{t: [] for t in range(1, len(c["types"]) + 1)} for _ in range(5)]
    dos, blk, G, want = [], [], [], []
    tyid = {ty: j for j, ty in enumerate(used)}
    for p, prog in enumerate(evs):
        g, vt, w = ["func zqProg%d() {" % p], {}, []
        for k, ev in enumerate(prog):
            n = p * 1000 + k
            op, t = ev["op"], ev.get("t")
            g.append("zqBegin(%d)" % n)
            ex = []
            v = "w%s" % ev.get("v")
            if op == "make":
                g += ["%s := &zqT%d{}; _ = %s" % (v, t, v)]
                vt[ev["v"]] = t
            elif op == "set":
                e, f = goexpr(c, v, vt[ev["v"]], ev["path"])
                kk = ev["k"]
                if kk == "v":
                    g.append("zqSet(unsafe.Pointer(&%s), %d, %s, unsafe.Sizeof(%s))" % (e, tyid[f["ty"]], ev["val"], e))
                elif kk == "len":
                    g.append("%s = %s" % (e, ev["val"]))
                elif kk == "nil":
                    g.append("%s = nil" % e)
                elif kk == "sl":
                    g.append("%s = zqSl[%s](%d%s)" % (e, LEAVES[f["ty"]][1], tyid[f["ty"]], "".join("," + x for x in ev["vals"])))
                elif kk == "str":
                    g.append('%s = strings.Clone("%s")' % (e, ev["val"]))
                elif kk == "ss":
                    g.append("%s = []string{%s}" % (e, ",".join('strings.Clone("%s")' % x for x in ev["vals"])))
                elif kk == "ref":
                    g.append("%s = w%s" % (e, ev["val"]))
                elif kk == "vs":
                    g.append("%s = make([]zqT%d, %s)" % (e, f["t"], ev["val"]))
            elif op == "call":
                use[t].append("case %d: %s break;" % (n, ccode(c, p, ev, "(*x)", t)))
                g.append("zqUse%d(%s)" % (t, v))
                ex = ["called"] + [l["r"] for l in ev["looks"]]
            elif op == "callnil":
                g.append("zqUse%d(nil)" % t)
                use[t].append("case %d: zqrt_null(x); break;" % n)
                ex = ["called", "null"]
            elif op == "callv":
                val[t].append("case %d: %s break;" % (n, ccode(c, p, ev, "x", t)))
                g.append("zqVal%d(*%s)" % (t, v))
                ex = ["called"] + [l["r"] for l in ev["looks"]]
            elif op in ("back", "backnil"):
                get[t].append("case %d: return %s;" % (n, sname(c, p, ev["b"]) if op == "back" else "0"))
                if op == "backnil":
                    g.append("zqSay(fmt.Sprint(zqGet%d() == nil))" % t)
                    ex = ["called", "true"]
                elif ev["api"]:
                    blk.append("case %d: return %s;" % (n, sname(c, p, ev["b"])))
                    g.append("%s := NewzqT%dRef(C.zqrt_blk()); _ = %s" % (v, t, v))
                else:
                    g.append("%s := zqGet%d(); _ = %s" % (v, t, v))
                    ex = ["called"]
                vt[ev.get("v")] = t
            elif op == "giv":
                giv[t].append("case %d: return zqs_%d_%d;" % (n, p, ev["b"]))
                g.append("t%s := zqGiv%d(); %s := &t%s; _ = %s" % (ev["v"], t, v, ev["v"], v))
                vt[ev["v"]] = t
                ex = ["called"]
            elif op == "cset":
                dos.append("case %d: %s break;" % (n, ccode(c, p, ev, "zqs_%d_%d" % (p, ev["b"]), t)))
                g.append("C.zqrt_do()")
            elif op in ("many", "manynil"):
                f = c["types"][vt[ev["v"]] - 1][ev["f"] - 1]
                many[t].append("case %d: %s break;" % (n, ccode(c, p, ev, "x", t) if op == "many" else "zqrt_null(x);"))
                g.append("zqMany%d(%s.%s, %d)" % (t, v, f["name"], ev.get("n", 0)))
                ex = ["called"] + [l["r"] for l in ev.get("looks", [{"r": "null"}])]
            elif op == "take":
                f = c["types"][vt[ev["v"]] - 1][ev["f"] - 1]
                g.append("w%d := %s.%s; _ = w%d" % (ev["new"], v, f["name"], ev["new"]))
                vt[ev["new"]] = f["t"]
            elif op == "deref":
                g.append("%s.Deref()" % v)
            elif op == "free":
                g.append("%s.Free()" % v)
            elif op == "show":
                g.append("zqSay(zqShow%d(%s, 2))" % (vt[ev["v"]], v))
                ex = [ev["s"]]
            elif op == "reset":
                g.append("*%s = zqT%d{}" % (v, t))
            elif op == "audit":
                g.append("zqAudit(%s)" % ("true" if ev["zero"] and not ev["temp"] else "false"))
                dos.append("case %d: %s break;" % (n, " ".join("zqrt_noted(%d);" % x["b"] for x in ev["noted"])))
                ex = [x["r"] for x in ev["noted"]] + ["bad 0"] + (["left 0"] if ev["zero"] and not ev["temp"] else [])
            g.append("zqEnd()")
            w.append(ex)
        for x in sorted(v for v in vt if v):
            g.append("runtime.KeepAlive(w%s)" % x)
        g.append("}")
        G.append("\n".join(g))
        want.append(w)
    for t in use:
        C.append("void zqUse%d(zqT%d *x) { zqrt_enter(); switch (zqrt_case) { %s default: zqrt_add(\"unexpected\"); } }" % (t, t, "\n".join(use[t])))
        C.append("void zqVal%d(zqT%d x) { zqrt_enter(); switch (zqrt_case) { %s default: zqrt_add(\"unexpected\"); } }" % (t, t, "\n".join(val[t])))
        C.append("zqT%d *zqGet%d(void) { zqrt_enter(); switch (zqrt_case) { %s } return 0; }" % (t, t, "\n".join(get[t])))
        C.append("zqT%d zqGiv%d(void) { static zqT%d none; zqrt_enter(); switch (zqrt_case) { %s } return none; }" % (t, t, t, "\n".join(giv[t])))
        C.append("void zqMany%d(zqT%d *x, int n) { zqrt_enter(); switch (zqrt_case) { %s default: zqrt_add(\"unexpected\"); } }" % (t, t, "\n".join(many[t])))
    C.append("void zqrt_do(void) { switch (zqrt_case) { %s } }" % "\n".join(dos))
    C.append("void *zqrt_blk(void) { switch (zqrt_case) { %s } return 0; }" % "\n".join(blk))
    go = [GOHEAD]
    for t, fs in enumerate(c["types"], 1):
        go.append(show_fn(t, fs, tyid))
    go += G
    go.append("var zqAll = []func(){%s}" % ",".join("zqProg%d" % p for p in range(len(evs))))
    return "\n".join(C) + "\n", "\n".join(go) + "\n", want


def show_fn(t, fs, tyid):
    out = ["func zqShow%d(x *zqT%d, d int) string {" % (t, t), 'if d < 0 { return "..." }', 's := "{" + map[bool]string{true: "-", false: "+"}[x.Ref() == nil]']
    first = True
    for f in fs:
        k, n = f["k"], "x." + f["name"]
        if k == "hid":
            continue
        if not first:
            out.append('s += ";"')
        first = False
        if k == "v":
            out.append("s += zqTok(unsafe.Pointer(&%s), %d, unsafe.Sizeof(%s))" % (n, tyid[f["ty"]], n))
        elif k == "len":
            out.append("s += fmt.Sprint(%s)" % n)
        elif k == "str":
            out.append("s += \"'\" + %s + \"'\"" % n)
        elif k == "ref":
            out.append('if %s == nil { s += "nil" } else { s += "&" + zqShow%d(%s, d-1) }' % (n, f["t"], n))
        elif k == "val":
            out.append("s += zqShow%d(&%s, d)" % (f["t"], n))
        else:
            el = {"sl": "zqTok(unsafe.Pointer(&%s[i]), %d, unsafe.Sizeof(%s[i]))" % (n, tyid.get(f["ty"], 0), n), "ss": "%s[i]" % n,
                  "vs": "zqShow%d(&%s[i], d)" % (f["t"], n), "va": "zqShow%d(&%s[i], d)" % (f["t"], n)}[k]
            loop = 's += "["; for i := range %s { if i > 0 { s += "," }; s += %s }; s += "]"' % (n, el)
            out.append(loop if k == "va" else 'if %s == nil { s += "nil" } else { %s }' % (n, loop))
    return "\n".join(out + ['return s + "}"', "}"])


RTH = """#ifndef ZQRT_H
#define ZQRT_H
#include <stddef.h>
extern int zqrt_case, zqrt_nap;
extern char zqrt_buf[1 << 16];
void zqrt_do(void);
void *zqrt_blk(void);
void zqrt_start(void);
int zqrt_bad(void);
int zqrt_left(void);
int zqrt_size(int ty);
void *zqrt_val(int ty, int k);
void zqrt_read(int ty, const void *p, size_t n);
#endif
"""
CHEAD = """#include "foo.h"
#include "zqrt.h"
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int zqrt_case, zqrt_nap;
char zqrt_buf[1 << 16];
static int zqrt_pool[8];
"""
CMID = r"""
static void zqrt_add(const char *s) { if (strlen(zqrt_buf) + strlen(s) + 2 < sizeof zqrt_buf) { strcat(zqrt_buf, "|"); strcat(zqrt_buf, s); } }
static void zqrt_enter(void) { if (zqrt_nap) usleep(zqrt_nap); zqrt_add("called"); }
static void zqrt_t(const char *s) { if (!s) zqrt_add("null"); else { char b[64]; snprintf(b, sizeof b, "%s", s); zqrt_add(b); } }
static void zqrt_i(int v) { char b[40]; sprintf(b, "%d", v); zqrt_add(b); }
static void zqrt_null(const void *p) { zqrt_add(p ? "ptr" : "null"); }
int zqrt_size(int ty) { return zqrt_types[ty].size; }
void *zqrt_val(int ty, int k) { return (char *)zqrt_types[ty].p + k * zqrt_types[ty].size; }
void zqrt_read(int ty, const void *p, size_t n) {
  char b[300], *q = b;
  if (n == (size_t)zqrt_size(ty))
    for (int k = 0; k < zqrt_types[ty].n; k++)
      if (!memcmp(p, zqrt_val(ty, k), n)) { sprintf(b, "%d", k); zqrt_add(b); return; }
  q += sprintf(q, "?");
  for (size_t i = 0; i < n && i < 60; i++) q += sprintf(q, "%02x", ((const unsigned char *)p)[i]);
  zqrt_add(b);
}
/* the allocator: what was freed stays, poisoned */
void *__real_malloc(size_t), *__real_calloc(size_t, size_t);
void __real_free(void *);
#define NB (1 << 17)
static struct { void *p; size_t n; int live, serial; } zqrt_tab[NB];
static int zqrt_serial, zqrt_from, zqrt_wrong;
static pthread_mutex_t zqrt_mu = PTHREAD_MUTEX_INITIALIZER;
static unsigned zqrt_slot(const void *p) { uintptr_t h = (uintptr_t)p >> 4; h ^= h >> 17; h *= 0x9E3779B97F4A7C15ull; h >>= 20; for (h &= NB - 1; zqrt_tab[h].p && zqrt_tab[h].p != p;) h = (h + 1) & (NB - 1); return h; }
static void *zqrt_reg(void *p, size_t n) {
  pthread_mutex_lock(&zqrt_mu);
  if (p && zqrt_serial < NB / 2) { unsigned h = zqrt_slot(p); zqrt_tab[h].p = p; zqrt_tab[h].n = n; zqrt_tab[h].live = 1; zqrt_tab[h].serial = ++zqrt_serial; }
  pthread_mutex_unlock(&zqrt_mu);
  return p;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n ? n : 1); if (p) memset(p, 0xA5, n); return zqrt_reg(p, n); }
void *__wrap_calloc(size_t a, size_t b) { return zqrt_reg(__real_calloc(a ? a : 1, b ? b : 1), a * b); }
void __wrap_free(void *p) {
  if (!p) return;
  pthread_mutex_lock(&zqrt_mu);
  unsigned h = zqrt_slot(p);
  if (zqrt_tab[h].p != p || !zqrt_tab[h].live) { if (zqrt_serial < NB / 2) zqrt_wrong++; }
  else { zqrt_tab[h].live = 0; memset(p, 0xA5, zqrt_tab[h].n); }
  pthread_mutex_unlock(&zqrt_mu);
}
void *__wrap_realloc(void *p, size_t n) {
  void *q = __wrap_malloc(n);
  if (p && q) {
    pthread_mutex_lock(&zqrt_mu);
    unsigned h = zqrt_slot(p);
    size_t m = zqrt_tab[h].p == p ? zqrt_tab[h].n : 0;
    pthread_mutex_unlock(&zqrt_mu);
    memcpy(q, p, m < n ? m : n);
    __wrap_free(p);
  }
  return q;
}
static const void *zqrt_note[20000];
static const char *zqrt_what(const void *p) { const char *s = "other"; pthread_mutex_lock(&zqrt_mu); unsigned h = zqrt_slot(p); if (p && zqrt_tab[h].p == p) s = zqrt_tab[h].live ? "heap" : "freed"; pthread_mutex_unlock(&zqrt_mu); return s; }
static void zqrt_state(const void *p, int b, int heap) { zqrt_add(zqrt_what(p)); if (heap) zqrt_note[b] = p; }
static void zqrt_noted(int b) { zqrt_add(zqrt_what(zqrt_note[b])); }
void zqrt_start(void) { pthread_mutex_lock(&zqrt_mu); zqrt_from = zqrt_serial; zqrt_wrong = 0; memset(zqrt_note, 0, sizeof zqrt_note); pthread_mutex_unlock(&zqrt_mu); }
int zqrt_bad(void) { return zqrt_wrong; }
int zqrt_left(void) { int n = 0; pthread_mutex_lock(&zqrt_mu); for (int i = 0; i < NB; i++) n += zqrt_tab[i].p && zqrt_tab[i].live && zqrt_tab[i].serial > zqrt_from; pthread_mutex_unlock(&zqrt_mu); return n; }
static void (*zqrt_use[])() __attribute__((unused)) = {zqrt_enter, zqrt_t, zqrt_i, zqrt_null, zqrt_state, zqrt_noted};
"""
GOHEAD = """package foo

/*
#include "foo.h"
#include "zqrt.h"
*/
import "C"
import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

var zqNum int
var zqSaid []string
var zqGC = os.Getenv("ZQGC") != ""
var _ = strings.Clone

func zqSet(p unsafe.Pointer, ty, k int, size uintptr) {
	copy(unsafe.Slice((*byte)(p), size), unsafe.Slice((*byte)(C.zqrt_val(C.int(ty), C.int(k))), C.zqrt_size(C.int(ty))))
}
func zqSl[T any](ty int, ks ...int) []T {
	s := make([]T, len(ks))
	for i, k := range ks {
		zqSet(unsafe.Pointer(&s[i]), ty, k, unsafe.Sizeof(s[i]))
	}
	return s
}
func zqTok(p unsafe.Pointer, ty int, size uintptr) string {
	b := []byte(C.GoString(&C.zqrt_buf[0]))
	C.zqrt_buf[0] = 0
	copy(zqTmp[:], unsafe.Slice((*byte)(p), size))
	C.zqrt_read(C.int(ty), unsafe.Pointer(&zqTmp), C.size_t(size))
	s := C.GoString(&C.zqrt_buf[0])
	C.zqrt_buf[0] = 0
	for i, x := range b {
		C.zqrt_buf[i] = C.char(x)
	}
	C.zqrt_buf[len(b)] = 0
	return s[1:]
}
var zqTmp [64]byte
func zqBegin(n int) {
	zqNum, zqSaid = n, nil
	C.zqrt_case = C.int(n)
	C.zqrt_buf[0] = 0
	if n%1000 == 0 {
		C.zqrt_start()
	}
	if zqGC {
		C.zqrt_nap = 1500
	}
}
func zqSay(s string) { zqSaid = append(zqSaid, s) }
func zqLog() {
	s := C.GoString(&C.zqrt_buf[0])
	if s != "" {
		zqSaid = append(strings.Split(s[1:], "|"), zqSaid...)
	}
}
func zqAudit(zero bool) {
	C.zqrt_do()
	zqSay("bad " + strconv.Itoa(int(C.zqrt_bad())))
	if zero {
		n := C.zqrt_left()
		for i := 0; n != 0 && i < 40; i++ {
			time.Sleep(5 * time.Millisecond)
			n = C.zqrt_left()
		}
		zqSay("left " + strconv.Itoa(int(n)))
	}
}
func zqQ(s []string) string {
	q := []string{}
	for _, e := range s {
		q = append(q, strconv.Quote(e))
	}
	return "[" + strings.Join(q, ",") + "]"
}
func zqEnd() {
	zqLog()
	fmt.Printf("{\\"n\\":%d,\\"log\\":%s}\\n", zqNum, zqQ(zqSaid))
}
func zqTry(f func()) {
	defer func() {
		if e := recover(); e != nil {
			zqSay("panic " + fmt.Sprint(e))
			zqEnd()
		}
	}()
	f()
}

// Zqrun runs the programs.
func Zqrun() {
	if zqGC {
		go func() {
			for {
				runtime.GC()
			}
		}()
	}
	for _, f := range zqAll {
		zqTry(f)
	}
}

"""
MAIN = "package main\n\nimport \"foo/foo\"\n\nfunc main() { foo.Zqrun() }\n"
