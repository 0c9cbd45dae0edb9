"""Packages of raw and opaque structs with programs for GenRaw.tla, and the header, the C
code and the Go code that carry out the operations it chose."""
import json
from structgen import LEAVES, ARRAYS, RTH, CHEAD, CMID, MAIN, toks

RTH2 = RTH.replace("#endif\n", "void zqrt_obnote(int o, int t, const void *p);\nvoid zqrt_name(int t, const void *p);\nvoid zqrt_dump(int t, const void *p);\nvoid zqrt_dumpz(int t, size_t p);\nvoid zqrt_kind(const void *p);\n#endif\n")


def gen_layout(rng):
    types, raw = [], []
    n = rng.choice([2, 3, 4, 4])
    for t in range(1, n + 1):
        r = t > 1 or rng.random() < 0.4
        fs = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["v", "v", "v", "a"] + ["hid"] * r)
            fs.append({"k": k, "ty": "hx" if k == "hid" else rng.choice(list(ARRAYS)) if k == "a" else rng.choice([x for x in LEAVES if x != "hx"])})
        if r:
            lower = [u for u in range(1, t) if raw[u - 1]]
            for _ in range(rng.randint(0, 4)):
                k = rng.choice(["p", "p", "r", "r", "ra"])
                if k == "p":
                    fs.append({"k": "p", "t": rng.choice(lower + [t, t])})
                elif lower:
                    fs.append({"k": k, "t": rng.choice(lower), "n": rng.randint(1, 3) if k == "ra" else 1})
            wr = [u for u in range(1, t) if not raw[u - 1]]
            if wr and rng.random() < 0.7:
                fs.append({"k": "w", "t": wr[0]})
            rng.shuffle(fs)
        for j, f in enumerate(fs):
            f.setdefault("t", 0), f.setdefault("n", 1), f.setdefault("ty", "")
            f["name"] = "%s%d" % (rng.choice("abcfgmx"), j + 1)
            f["m"] = len(toks(f["ty"])) - 1 if f["ty"] else 0
        types.append(fs), raw.append(r)
    return types, raw


OPS = ["new"] * 3 + ["newnil"] + ["back"] * 4 + ["sub"] * 7 + ["follow"] * 6 + ["set"] * 10 + ["link"] * 8 + ["read"] * 12 + ["hold"] * 3 + ["peek"] * 4 + ["poke"] * 3 + \
      ["call"] * 10 + ["callnil"] + ["refs"] * 2 + ["callv"] * 3 + ["many"] * 3 + ["cset"] * 6 + ["assign"] * 3 + ["wrap"] * 4 + ["free"] * 2 + ["audit"]


def gen_package(rng, progs=6, length=60):
    types, raw = gen_layout(rng)
    rs = [t + 1 for t in range(len(raw)) if raw[t]]
    statics = rs + [rng.choice(rs) for _ in range(2)]
    dice = lambda: [rng.randrange(9973) for _ in range(12)]
    ps = []
    for _ in range(progs):
        ops = [{"op": o, "d": dice()} for o in ["back", "back", "cset", "new"]] + [{"op": rng.choice(OPS), "d": dice()} for _ in range(rng.randint(length // 2, length))]
        ps.append(ops + [{"op": "audit", "d": dice()}])
    return {"types": types, "raw": raw, "statics": statics, "progs": ps, "tags": [rng.randrange(3) for _ in types], "safe": rng.random() < 0.3, "memtip": rng.randrange(2)}


def tla_case(c):
    return {"types": [[{k: f[k] for k in ("k", "t", "n", "m")} for f in fs] for fs in c["types"]], "raw": c["raw"], "statics": c["statics"], "progs": c["progs"]}


def tag(c, t):
    return "struct zqT%d" % t if c["tags"][t - 1] == 2 else "zqT%d" % t


def cdecl(c, f, t):
    n = f["name"]
    if f["k"] in ("v", "hid", "a"):
        return "%s %s%s;" % (ARRAYS[f["ty"]][0], n, ARRAYS[f["ty"]][1]) if f["ty"] in ARRAYS else "%s %s;" % (LEAVES[f["ty"]][0], n)
    s = ("struct " if f["t"] == t else "") + "zqT%d" % f["t"] if c["tags"][f["t"] - 1] != 2 else tag(c, f["t"])
    return s + {"p": " *%s;", "r": " %s;", "w": " %s;", "ra": " %s[" + str(f["n"]) + "];"}[f["k"]] % n


def raws(c):
    return [t for t in range(1, len(c["types"]) + 1) if c["raw"][t - 1]]


def header(c):
    h = ["#ifndef FOO_H", "#define FOO_H", "typedef enum zqEn_e { ZQ_A, ZQ_B, ZQ_C } zqEn;", "typedef enum hxEn_e { HX_A, HX_B } hxEn;",
         "typedef union zqUn_u { unsigned char b[8]; long long i; } zqUn;", "typedef struct zqHa_T *zqHa;", "typedef short zqAl;", "typedef struct zqOp zqOp;"]
    for t, fs in enumerate(c["types"], 1):
        me = any(f["k"] == "p" and f["t"] == t for f in fs)
        body = "{ %s }" % " ".join(cdecl(c, f, t) for f in fs)
        if c["tags"][t - 1] == 2:
            h.append("struct zqT%d %s;" % (t, body))
        else:
            h.append("typedef struct zqT%d%s %s zqT%d;" % (t, "" if me or c["tags"][t - 1] == 0 else "_s", body, t))
    for t in raws(c):
        x = tag(c, t)
        h.append("typedef struct zqWr%d { int a; %s r; %s *p; } zqWr%d;" % (t, x, x, t))
        h += ["void zqUse%d(%s *x);" % (t, x), "%s zqVal%d(%s x);" % (x, t, x), "%s *zqGet%d(void);" % (x, t), "void zqOut%d(%s **x);" % (t, x),
              "void zqMany%d(%s *x, int n);" % (t, x), "void zqUseWr%d(zqWr%d *x);" % (t, t)]
    h += ["zqOp *zqOpGet(int k);", "int zqOpIs(zqOp *x);"]
    return "\n".join(h + ["#endif", ""])


def config(c):
    rs = raws(c)
    T = {"Rules": {"global": [{"action": "accept", "from": "^zq"}, {"action": "accept", "from": "^ZQ"}]},
         "MemTips": [{"target": "^zqT[%s]$" % "".join(map(str, rs)), "self": "raw"}] if c["memtip"] else [{"target": "^zqT%d$" % t, "self": "raw"} for t in rs],
         "PtrTips": {"function": [{"target": "^zq(Use|Get|Op)", "tips": ["ref"], "self": "ref"}, {"target": "^zqOut", "tips": ["ref"]}], "struct": [{"target": "^zqWr", "tips": ["0", "0", "ref"]}]}}
    return json.dumps({"GENERATOR": {"PackageName": "foo", "Includes": ["foo.h"], "Options": dict({"StructAccessors": True}, **({"SafeStrings": True} if c["safe"] else {}))},
                       "PARSER": {"SourcesPaths": ["foo.h"]}, "TRANSLATOR": T})


def walk(c, t, path, expr):
    j = 0
    while j < len(path):
        f = c["types"][t - 1][path[j] - 1]
        expr += "." + f["name"]
        j += 1
        if f["k"] == "ra":
            if j < len(path):
                expr += "[%d]" % path[j]
                j += 1
        if f["k"] in ("ra", "r", "w"):
            t = f["t"]
    return expr


def leaves(c, t):
    out = []
    for j, f in enumerate(c["types"][t - 1], 1):
        if f["k"] in ("r", "w"):
            out += [([j] + q, g) for q, g in leaves(c, f["t"])]
        elif f["k"] == "ra":
            out += [([j, n] + q, g) for n in range(f["n"]) for q, g in leaves(c, f["t"])]
        else:
            out.append(([j], f))
    return out


def places(c, u, t):
    out = [[]] if u == t else []
    for j, f in enumerate(c["types"][u - 1], 1):
        if f["k"] in ("r", "w"):
            out += [[j] + q for q in places(c, f["t"], t)]
        elif f["k"] == "ra":
            out += [[j, n] + q for n in range(f["n"]) for q in places(c, f["t"], t)]
    return out


def leaf_at(c, t, path):
    return next(f for q, f in leaves(c, t) if q == path)


def poke(c, p, t, ws, base):
    out = []
    for w in ws:
        f = leaf_at(c, t, w["path"])
        e = walk(c, t, w["path"], base)
        if w["k"] == "p":
            out.append("%s = %s;" % (e, place(c, p, w["x"])))
        else:
            out.append("memcpy(&%s,zqrt_val(zq_%s,%d),sizeof(%s));" % (e, f["ty"], w["x"]["v"], e))
    return " ".join(out)


def place(c, p, x):
    return "0" if x["o"] == 0 else "&" + walk(c, c["statics"][x["o"] - 1], x["p"], "zqs_%d_%d" % (p, x["o"]))


def concretize(c, evs):
    used = sorted({f["ty"] for fs in c["types"] for f in fs if f["ty"]})
    C = [CHEAD]
    for ty in used:
        if ty in ARRAYS:
            C.append("typedef %s zqa_%s%s; static zqa_%s zqv_%s[] = {%s};" % (ARRAYS[ty][0], ty, ARRAYS[ty][1], ty, ty, ",".join(toks(ty))))
        else:
            C.append("static %s zqv_%s[] = {%s};" % (LEAVES[ty][0], ty, ",".join(toks(ty))))
    C.append("enum { zq_0 = -1 %s };" % "".join(", zq_" + ty for ty in used))
    C.append("struct zqrt_type { const void *p; int size, n; } zqrt_types[] = {%s};" % ",".join("{zqv_%s,sizeof zqv_%s[0],%d}" % (ty, ty, len(toks(ty))) for ty in used))
    C.append(CMID)
    C.append("static struct { int t; const void *p; } zqrt_obj[1000];\nvoid zqrt_obnote(int o, int t, const void *p) { zqrt_obj[o].t = t; zqrt_obj[o].p = p; }\nvoid zqrt_kind(const void *p) { zqrt_add(zqrt_what(p)); }")
    nt = len(c["types"])
    C.append("static void zqrt_find(int u, int t, const void *x, const void *p, int o, int *hit) { (void)x; switch (u * 100 + t) {")
    for u in range(1, nt + 1):
        for t in range(1, nt + 1):
            tests = "".join(' if (!*hit && p == (const void *)&%s) { char b[80]; sprintf(b, "%%d%s", o); zqrt_add(b); *hit = 1; }' % (walk(c, u, q, "(*(const %s *)x)" % tag(c, u)), "".join(".%d" % e for e in q))
                            for q in places(c, u, t))
            if tests:
                C.append("case %d:%s break;" % (u * 100 + t, tests))
    C.append("} }\nvoid zqrt_name(int t, const void *p) { int hit = 0; if (!p) { zqrt_add(\"null\"); return; } for (int o = 1; o < 1000 && !hit; o++) if (zqrt_obj[o].p) zqrt_find(zqrt_obj[o].t, t, zqrt_obj[o].p, p, o, &hit); if (!hit) zqrt_add(\"elsewhere\"); }")
    C.append("void zqrt_dump(int t, const void *p) { switch (t) {")
    for t in range(1, nt + 1):
        s = "".join("zqrt_name(%d,%s);" % (f["t"], e) if f["k"] == "p" else "zqrt_read(zq_%s,&%s,sizeof(%s));" % (f["ty"], e, e)
                    for q, f in leaves(c, t) for e in [walk(c, t, q, "(*x)")])
        C.append("case %d: { const %s *x = p; (void)x; %s break; }" % (t, tag(c, t), s))
    C.append("} }\nvoid zqrt_dumpz(int t, size_t p) { zqrt_dump(t, (const void *)p); }")
    for p in range(len(evs)):
        for o, t in enumerate(c["statics"], 1):
            C.append("static %s zqs_%d_%d;" % (tag(c, t), p, o))
    use, val, get, out, many, wr = [{t: [] for t in raws(c)} for _ in range(6)]
    dos, blk, G, want = [], [], [], []
    tyid = {ty: j for j, ty in enumerate(used)}
    acc = lambda v, t, j: "w%d.Get%s()" % (v, c["types"][t - 1][j - 1]["name"])
    for p, prog in enumerate(evs):
        g, vt, w, tail = ["func zqProg%d() {" % p], {}, [], []
        for k, ev in enumerate(prog):
            n = p * 1000 + k
            op, t, v, new = ev["op"], ev.get("t"), ev.get("v"), ev.get("new")
            g.append("zqBegin(%d)" % n)
            if k == 0:
                g.append("C.zqrt_blk()")
                blk.append("case %d: memset(zqrt_obj,0,sizeof zqrt_obj); %s break;" % (n, " ".join("zqrt_obnote(%d,%d,&zqs_%d_%d);" % (o, ty, p, o) for o, ty in enumerate(c["statics"], 1))))
            fld = c["types"][vt[v] - 1][ev["j"] - 1] if v and "j" in ev and v in vt else None
            if op == "new":
                g += ["w%d := NewzqT%d(); zqNote(%d, %d, unsafe.Pointer(w%d))" % (new, t, ev["o"], t, new), "zqKind(unsafe.Pointer(w%d)); zqName(%d, unsafe.Pointer(w%d)); zqDump(%d, unsafe.Pointer(w%d))" % (new, t, new, t, new)]
            elif op == "newnil":
                g += ["var n%d *zqT%d; zqName(%d, unsafe.Pointer(n%d.Ref()))" % (new, t, t, new), "w%d := (*zqT%d)(unsafe.Pointer(n%d.PassRef())); zqNote(%d, %d, unsafe.Pointer(w%d))" % (new, t, new, ev["o"], t, new),
                      "zqKind(unsafe.Pointer(w%d)); zqName(%d, unsafe.Pointer(w%d)); zqDump(%d, unsafe.Pointer(w%d))" % (new, t, new, t, new)]
            elif op == "back":
                if ev["how"] == "fn":
                    get[t].append("case %d: return %s;" % (n, place(c, p, ev["x"])))
                    g.append("w%d := zqGet%d()" % (new, t))
                elif ev["how"] == "api":
                    blk.append("case %d: return %s;" % (n, place(c, p, ev["x"])) if k else "")
                    if k == 0:
                        blk[-1] = ""
                        blk[-2] = blk[-2].replace(" break;", " return (void *)%s;" % place(c, p, ev["x"]))
                    g.append("w%d := NewzqT%dRef(C.zqrt_blk())" % (new, t))
                else:
                    out[t].append("case %d: *x = %s; break;" % (n, place(c, p, ev["x"])))
                    g.append("o%d := make([]*zqT%d, 1); zqOut%d(o%d); w%d := o%d[0]" % (new, t, t, new, new, new))
                g.append("zqName(%d, unsafe.Pointer(w%d))" % (t, new))
            elif op == "sub":
                g.append("w%d := %s; zqName(%d, unsafe.Pointer(w%d))" % (new, acc(v, vt[v], ev["j"]), t, new))
            elif op == "follow":
                g.append("w%d := *%s; zqName(%d, unsafe.Pointer(w%d))" % (new, acc(v, vt[v], ev["j"]), t, new))
            elif op == "set":
                g.append("{ a := %s; zqSet(unsafe.Pointer(a), %d, %d, unsafe.Sizeof(*a)) }" % (acc(v, vt[v], ev["j"]), tyid[fld["ty"]], ev["x"]["v"]))
            elif op == "link":
                g.append("*%s = %s" % (acc(v, vt[v], ev["j"]), "w%d" % ev["u"] if ev["u"] else "nil"))
            elif op == "read":
                a, kk = acc(v, vt[v], ev["j"]), ev["k"]
                if kk == "v":
                    g.append("{ a := %s; zqSay(zqTok(unsafe.Pointer(a), %d, unsafe.Sizeof(*a))) }" % (a, tyid[fld["ty"]]))
                elif kk == "a":
                    g.append("{ a := %s; zqSay(zqTok(unsafe.Pointer(&a), %d, unsafe.Sizeof(a))) }" % (a, tyid[fld["ty"]]))
                elif kk == "p":
                    g.append("zqName(%d, unsafe.Pointer(*%s))" % (fld["t"], a))
                elif kk == "w":
                    g.append("{ a := %s; a.Deref(); zqName(%d, unsafe.Pointer(a.Ref())); zqFlush(); %s }" % (a, fld["t"], " ".join("zqSay(zqTok(unsafe.Pointer(&a.%s), %d, unsafe.Sizeof(a.%s)));" % (x["name"], tyid[x["ty"]], x["name"]) for x in c["types"][fld["t"] - 1])))
                else:
                    g.append("{ a := %s; zqDump(%d, unsafe.Pointer(&a[%d])) }" % (a, fld["t"], ev["n"]))
            elif op == "hold":
                g.append("h%d := %s; _ = h%d" % (new, acc(v, vt[v], ev["j"]), new))
            elif op == "peek":
                x = c["types"][t - 1][ev["j"] - 1]
                g.append("zqSay(zqTok(unsafe.Pointer(h%d), %d, unsafe.Sizeof(*h%d)))" % (ev["h"], tyid[x["ty"]], ev["h"]))
            elif op == "poke":
                x = c["types"][t - 1][ev["j"] - 1]
                g.append("zqSet(unsafe.Pointer(h%d), %d, %d, unsafe.Sizeof(*h%d))" % (ev["h"], tyid[x["ty"]], ev["x"]["v"], ev["h"]))
            elif op == "call":
                use[t].append("case %d: zqrt_name(%d,x); zqrt_dump(%d,x); %s break;" % (n, t, t, poke(c, p, t, ev["pokes"], "(*x)")))
                g.append("zqUse%d(w%d)" % (t, v))
            elif op == "callnil":
                use[t].append("case %d: zqrt_name(%d,x); break;" % (n, t))
                g.append("zqUse%d(nil)" % t)
            elif op == "refs":
                g.append("zqName(%d, unsafe.Pointer(w%d.Ref())); zqName(%d, unsafe.Pointer(w%d.PassRef())); zqName(%d, unsafe.Pointer(NewzqT%dRef(unsafe.Pointer(w%d.Ref()))))" % (t, v, t, v, t, t, v))
            elif op == "callv":
                val[t].append("case %d: zqrt_dump(%d,&x); %s return x;" % (n, t, poke(c, p, t, ev["pokes"], "x")))
                g.append("w%d := new(zqT%d); *w%d = zqVal%d(*w%d); zqNote(%d, %d, unsafe.Pointer(w%d))" % (new, t, new, t, v, ev["o"], t, new))
            elif op == "many":
                many[t].append("case %d: zqrt_name(%d,x); for (int i = 0; i < n; i++) zqrt_dump(%d,x+i); %s break;" % (n, t, t, poke(c, p, t, ev["pokes"], "x[%d]" % (ev["to"] - 1))))
                g.append("s%d := []zqT%d{%s}; for i := range s%d { zqNote(%d + i, %d, unsafe.Pointer(&s%d[i])) }; zqMany%d(s%d, %d)" % (n, t, ",".join("*w%d" % x for x in ev["vs"]), n, ev["o"] + 1, t, n, t, n, ev["n"]))
                for j in range(ev["n"]):
                    g.append("w%d := &s%d[%d]; _ = w%d" % (ev["new"] + j + 1, n, j, ev["new"] + j + 1))
                    vt[ev["new"] + j + 1] = t
                tail.append("s%d" % n)
                new = None
            elif op == "cset":
                dos.append("case %d: { %s *x = (void *)zqrt_obj[%d].p; (void)x; %s break; }" % (n, tag(c, t), ev["o"], poke(c, p, t, ev["pokes"], "(*x)")))
                g.append("C.zqrt_do()")
            elif op == "assign":
                g.append("*w%d = *w%d" % (v, ev["u"]))
            elif op == "wrap":
                wr[t].append("case %d: zqrt_dump(%d,&x->r); zqrt_name(%d,x->p); %s x->p = %s; break;" % (n, t, t, poke(c, p, t, ev["pokes"], "x->r"), place(c, p, ev["x"])))
                g += ["a%d := &zqWr%d{a: 3, r: *w%d, p: %s}; zqUseWr%d(a%d); a%d.Deref(); zqDump(%d, unsafe.Pointer(&a%d.r)); zqName(%d, unsafe.Pointer(a%d.p)); w%d := a%d.p; a%d.Free()" %
                      (n, t, v, "w%d" % ev["u"] if ev["u"] else "nil", t, n, n, t, n, t, n, new, n, n)]
            elif op == "free":
                g.append("w%d.Free(); zqKind(unsafe.Pointer(w%d))" % (v, v))
            elif op == "audit":
                dos.append("case %d: %s break;" % (n, " ".join("zqrt_dump(%d,zqrt_obj[%d].p);" % (x["t"], o) if x["live"] else "zqrt_kind(zqrt_obj[%d].p);" % o for o, x in enumerate(ev["objs"], 1))))
                g.append("zqAudit2(%d)" % ev["left"])
            if new and op != "hold":
                vt[new] = t
                g.append("_ = w%d" % new)
            g.append("zqEnd()")
            w.append(ev["log"])
        for x in sorted(vt):
            g.append("runtime.KeepAlive(w%d)" % x)
        for x in tail:
            g.append("runtime.KeepAlive(%s)" % x)
        g.append("}")
        G.append("\n".join(g))
        want.append(w)
    for t in raws(c):
        x = tag(c, t)
        D = 'default: zqrt_add("unexpected");'
        C.append("void zqUse%d(%s *x) { zqrt_enter(); switch (zqrt_case) { %s %s } }" % (t, x, "\n".join(use[t]), D))
        C.append("%s zqVal%d(%s x) { zqrt_enter(); switch (zqrt_case) { %s %s } return x; }" % (x, t, x, "\n".join(val[t]), D))
        C.append("%s *zqGet%d(void) { zqrt_enter(); switch (zqrt_case) { %s } return 0; }" % (x, t, "\n".join(get[t])))
        C.append("void zqOut%d(%s **x) { zqrt_enter(); switch (zqrt_case) { %s %s } }" % (t, x, "\n".join(out[t]), D))
        C.append("void zqMany%d(%s *x, int n) { zqrt_enter(); switch (zqrt_case) { %s %s } }" % (t, x, "\n".join(many[t]), D))
        C.append("void zqUseWr%d(zqWr%d *x) { zqrt_enter(); switch (zqrt_case) { %s %s } }" % (t, t, "\n".join(wr[t]), D))
    C.append("static int zqrt_ops[4]; zqOp *zqOpGet(int k) { return k < 0 ? 0 : (zqOp *)&zqrt_ops[k]; } int zqOpIs(zqOp *x) { return x ? (int)((int *)x - zqrt_ops) : -1; }")
    C.append("void zqrt_do(void) { switch (zqrt_case) { %s } }" % "\n".join(dos))
    C.append("void *zqrt_blk(void) { switch (zqrt_case) { %s } return 0; }" % "\n".join(blk))
    go = [GOHEAD] + G
    go.append("var zqAll = []func(){zqOpaque,%s}" % ",".join("zqProg%d" % p for p in range(len(evs))))
    return "\n".join(C) + "\n", "\n".join(go) + "\n", want


import structgen
GOHEAD = structgen.GOHEAD + """
func zqNote(o, t int, p unsafe.Pointer) { C.zqrt_obnote(C.int(o), C.int(t), p) }
func zqName(t int, p unsafe.Pointer)    { C.zqrt_name(C.int(t), p) }
func zqDump(t int, p unsafe.Pointer)    { C.zqrt_dumpz(C.int(t), C.size_t(uintptr(p))); runtime.KeepAlive(p) }
func zqKind(p unsafe.Pointer)           { C.zqrt_kind(p) }
func zqFlush()                          { zqLog(); C.zqrt_buf[0] = 0 }
func zqAudit2(left int) {
	C.zqrt_do()
	zqSay("bad " + strconv.Itoa(int(C.zqrt_bad())))
	n := int(C.zqrt_left())
	for i := 0; n != left && i < 40; i++ {
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
		n = int(C.zqrt_left())
	}
	zqSay("left " + strconv.Itoa(n))
}
func zqOpaque() {
	for k := int32(-1); k < 4; k++ {
		x := zqOpGet(k)
		y := NewzqOpRef(unsafe.Pointer(x.Ref()))
		if (x == nil) != (k < 0) || zqOpIs(x) != k || zqOpIs(y) != k || x.Ref() != y.Ref() {
			panic("opaque")
		}
	}
}
"""
