"""Packages of callback types with histories for Callbacks.tla: the header, the C code
that keeps callbacks and calls them, the Go functions, and the model of each history."""
import re

import callgen
from callgen import Leaf, NAMED, NULL, P, SC, SCALARS, Scenario, cval, goval, rvalue, vshow

NSLOTS = 2


class Mem(Scenario):
    """memory of a package: the blocks of callgen under the number 0"""
    def __init__(self, rng):
        Scenario.__init__(self, rng, None, 0)

    def struct(self, leaves, c):
        vals = [(rvalue(self.rng, leaves[f].kind)) for f in ("int", "zqAl", "uchar")]
        cells = [SC(vshow(leaves[f].kind, v)) for f, v in zip(("int", "zqAl", "uchar"), vals)]
        b = self.block("c" if c else "model", None, ["st"], cells)
        if c:
            self.cdecls.append("static zqSt zqb_0_%d = {%s};" % (b, ", ".join(cval(leaves[f].kind, v) for f, v in zip(("int", "zqAl", "uchar"), vals))))
        go = "zqSt{%s}" % ", ".join("%s: %s" % (n, goval(leaves[f].kind, v, leaves[f].go)) for n, f, v in zip("abc", ("int", "zqAl", "uchar"), vals))
        return b, go


def at(b, o, n):
    return {"k": "p", "v": "", "b": b, "o": o, "n": n}


def gen_type(rng, t, leaves, plain):
    """a callback type: C declaration, parameters, result, tips"""
    params, tips, decls = [], [], []
    names = rng.sample(["x", "cx", "ccx", "ret", "type", "buf", "pData", "user_data", "len", "func", "n", "y", "cy", "", "c"], 6)
    kinds = [rng.choice(["v"] * 4 + ["str"] * 2 + ["sl"] * 4 + ["st"] * 2 + ["sv", "op"]) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5]))]
    for j, k in enumerate(kinds):
        nm, tip, const, form = names[j], "0", False, ""
        cname = nm or "arg%d" % j
        if k == "op":
            leaf, d, tip, k, go = leaves["opaque"], "zqOp *" + nm, rng.choice(["ref", "sref"]), "v", "*zqOp"
        elif k == "v":
            leaf = leaves[rng.choice(plain + ["zqAl", "hxal", "zqEn", "zqUn", "zqHa", "void", "void", "void"])]
            d, go = leaf.c + " " + nm, leaf.go
        elif k == "str":
            leaf, d, go = leaves["char"], "const char *" + nm, "string"
        elif k == "sl":
            b = rng.choice(plain + plain + ["zqAl", "hxal", "zqEn", "zqUn", "zqHa", "void"])
            leaf, form, go = leaves[b], "S", "[]" + leaves[b].go
            if rng.random() < 0.15 and nm and b != "char":
                d = "%s %s[%d]" % (leaf.c, nm, rng.randint(1, 4))
            else:
                const = b in SCALARS and b not in ("char", "uchar") and rng.random() < 0.2
                d = ("const " if const else "") + leaf.c + " *" + nm
            if b != "void" and rng.random() < 0.35:
                tip, form, go = rng.choice(["ref", "sref"]), "P", "*" + leaf.go
        elif k == "st":
            leaf, tip, go, d = None, rng.choice(["ref", "sref"]), "*zqSt", rng.choice(["", "", "const "]) + "zqSt *" + nm
        else:
            leaf, go, d = None, "zqSt", "zqSt " + nm
        params.append({"k": k, "leaf": leaf, "form": form, "const": const, "go": go, "keep": False})
        tips.append(tip)
        decls.append(d)
    for p in params:
        if p["k"] == "sl" and not p["const"]:
            p["keep"] = True  # never NULL, so that functions can write to it
            break
    r = rng.random()
    self_, res, leaf, form, go = "0", "", None, "", ""
    if r < 0.4:
        leaf = leaves[rng.choice(plain + ["zqAl", "hxal", "zqEn", "zqUn", "zqHa", "void", "opaque"])]
        res, c, go = "v", leaf.c, leaf.go
        if leaf.name == "opaque" and rng.random() < 0.5:
            self_ = "ref"
    elif r < 0.6:
        leaf = leaves[rng.choice(plain + ["zqAl", "zqEn", "zqUn", "zqHa"])]
        res, c, form, go = "sl", leaf.c + " *", "P", "*" + leaf.go
        if rng.random() < 0.4:
            self_, form, go = "arr", "S", "[]" + leaf.go
    elif r < 0.75:
        res, c, go = rng.choice([("st", "zqSt *", "*zqSt"), ("sv", "zqSt", "zqSt")])
    else:
        c = "void"
    name = "zqCb%d" % t
    fn = rng.random() < 0.35  # a function type
    decl = "typedef %s %s(%s);" % (c, (rng.choice(["%s", "(%s)"]) if fn else "(*%s)") % name, ", ".join(decls) or "void")
    tip = None
    if any(x != "0" for x in tips) or self_ != "0":
        tip = {"target": "^%s$" % name, "tips": tips}
        if self_ != "0":
            tip["self"] = self_
    return {"name": name, "decl": decl, "c": c, "star": "*" if fn else "", "params": params, "res": res, "leaf": leaf, "form": form, "go": go, "tip": tip}


def gen_package(rng, ntypes=7, nhist=10):
    al, hx = rng.choice(["int", "ushort", "double", "llong"]), rng.choice(["short", "uint", "float", "schar"])
    tname = {"zqAl": SCALARS[al][2], "hxal": SCALARS[hx][2]}
    leaves = {n: Leaf(n, c, g, k) for n, (c, g, k) in SCALARS.items()}
    for n, (c, g, k) in NAMED.items():
        leaves[n] = Leaf(n, c, g or SCALARS[hx][1], k or tname[n])
    drop = [rng.choice(["long", "llong"]), rng.choice(["ulong", "ullong"])]
    plain = [n for n in SCALARS if n not in drop and n != "char"] + ["char"]
    head = ["typedef %s zqAl;" % SCALARS[al][0], "typedef %s hxal;" % SCALARS[hx][0], "typedef enum zqEn_e {ZQ_A, ZQ_B, ZQ_C, ZQ_D = 7} zqEn;",
            "typedef union zqUn_u {char b[8]; int i; double d;} zqUn;", "typedef struct zqHa_T *zqHa;", "typedef struct zqOp_T zqOp;",
            rng.choice(["typedef struct zqSt_s { int a; zqAl b; unsigned char c; } zqSt;", "typedef struct { int a; zqAl b; unsigned char c; } zqSt;"])]
    types = [gen_type(rng, t + 1, leaves, plain) for t in range(ntypes)]
    head += [t["decl"] for t in types]
    tips, regs, impl = [t["tip"] for t in types if t["tip"]], [], []
    stips = []
    for k, t in enumerate(types):
        regs.append("void zqReg%d(int slot, %s %scb);" % (k + 1, t["name"], t["star"] if rng.random() < 0.7 else ""))
        impl.append(regs[-1][:-1] + " { zqslot%d[slot] = cb; }" % (k + 1))
    pairs = []
    for q in range(4):
        a, b = rng.randrange(ntypes), rng.randrange(ntypes)
        ta, tb = types[a], types[b]
        how = ["args", "args", "struct", "value"][q]
        if how == "args":
            regs.append("void zqTwo%d(%s %sa, int s1, %s %sb, int s2, void *x);" % (q, ta["name"], ta["star"], tb["name"], tb["star"]))
            impl.append(regs[-1][:-1] + " { zqslot%d[s1] = a; zqslot%d[s2] = b; }" % (a + 1, b + 1))
        else:
            head.append("typedef struct zqOps%d { int s1; %s %sf; %s %sg; int s2; } zqOps%d;" % (q, ta["name"], ta["star"], tb["name"], tb["star"], q))
            regs.append("void zqTwo%d(zqOps%d %so);" % (q, q, "*" if how == "struct" else ""))
            d = "->" if how == "struct" else "."
            impl.append(regs[-1][:-1] + " { zqslot%d[o%ss1] = o%sf; zqslot%d[o%ss2] = o%sg; }" % (a + 1, d, d, b + 1, d, d))
            if how == "struct":
                tips.append({"target": "^zqTwo%d$" % q, "tips": ["ref"]})
        pairs.append((a, b, how, q))
    regs += ["void zqFire(int n, int slot, int thr);", "void zqPar(int *n, int k);", "void zqSame(int t, int a, int b);"]
    mem = Mem(rng)
    pool = {}

    def block(leaf, n):
        old = [b for b in pool.get(leaf.name, []) if len(mem.blocks[b - 1]["cells"]) >= n]
        if old and rng.random() < 0.6:
            return rng.choice(old)
        b = mem.cblock(leaf, n + rng.choice([0, 0, 2]))
        pool.setdefault(leaf.name, []).append(b)
        return b

    structs = []

    def struct():
        if structs and rng.random() < 0.5:
            return rng.choice(structs)
        structs.append(mem.struct(leaves, True)[0])
        return structs[-1]
    # ---- what C can call
    calls, fire, ns = [], [], []
    for k, t in enumerate(types):
        for _ in range(3):
            args, ce, after = [], [], []
            for p in t["params"]:
                leaf = p["leaf"]
                if p["k"] == "v":
                    c, _, e = mem.leafval(leaf)
                    e = "(zqUn)" + e if leaf.kind == "u" else e
                elif p["k"] == "str":
                    b = 0 if rng.random() < 0.15 else mem.text()
                    c, e = at(b, 0, 1), "zqb_0_%d" % b if b else "0"
                elif p["k"] == "sl":
                    if rng.random() < 0.15 and not p["keep"]:
                        c, e = at(0, 0, 0), "0"
                    else:
                        n = 1 if p["form"] == "P" else rng.choice([1, 1, 1, 2, 2, 4, 4, 5, 30] + ([0, 0] if not p["keep"] else []))
                        b = block(leaf, max(1, n))
                        o = rng.randint(0, len(mem.blocks[b - 1]["cells"]) - max(1, n))
                        c, e = at(b, o, n), "zqb_0_%d + %d" % (b, o)
                        if n:
                            after.append('zqrt_open("["); %s zqrt_close("]");' % " ".join(mem.clog(leaf, "zqb_0_%d[%d]" % (b, o + j)) for j in range(n)))
                        else:
                            after.append('zqrt_add("[]");')
                else:
                    b = 0 if p["k"] == "st" and rng.random() < 0.15 else struct()
                    c, e = at(b, 0, 3 if b else 0), ("&" if p["k"] == "st" else "") + "zqb_0_%d" % b if b else "0"
                    if b and p["k"] == "st":
                        after.append("zqrt_st(&zqb_0_%d);" % b)
                if p["k"] in ("sl", "st") and not c["b"]:
                    after.append('zqrt_add("nil");')
                args.append(c)
                ce.append(e)
            calls.append({"t": k + 1, "args": args})
            n = len(calls)
            ns.append([a["n"] for a in args])
            call = "zqslot%d[slot](%s)" % (k + 1, ", ".join(ce))
            if t["res"] == "":
                got = '%s; zqrt_add("back");' % call
            else:
                got = "%s r = %s; " % (t["c"], call) + 'zqrt_add("ret"); '
                if t["res"] == "v":
                    got += mem.clog(t["leaf"], "r")
                elif t["res"] == "sl":
                    got += 'if (!r) zqrt_add("nil"); else { zqrt_open("["); for (int i = 0, m = zqrt_c()->n; i < m; i++) { %s } zqrt_close("]"); }' % mem.clog(t["leaf"], "r[i]")
                else:
                    got += "zqrt_st(%sr);" % ("&" if t["res"] == "sv" else "")
            fire.append('  case %d: if (!zqslot%d[slot]) { zqrt_add("null"); break; } zqrt_c()->cur = %d; { %s %s } break;' % (n, k + 1, n, got, " ".join(after)))
    # ---- the functions
    funcs, gof = [], []

    def value(t):
        """(cell, Go statements)"""
        if t["res"] == "":
            return NULL, "return"
        if t["res"] == "v":
            c, g, _ = mem.leafval(t["leaf"])
            return c, "return " + (g if t["leaf"].kind == "p" else "%s(%s)" % (t["go"], g))
        if t["res"] == "sl":
            if rng.random() < 0.15:
                return NULL, "return nil"
            n = 1 if t["form"] == "P" else rng.randint(1, 4)
            b = block(t["leaf"], n)
            o = rng.randint(0, len(mem.blocks[b - 1]["cells"]) - n)
            base = "zqCast[*%s](zqOff(C.zqrt_blk(0, %d), %d, unsafe.Sizeof(*new(%s))))" % (t["leaf"].go, b, o, t["leaf"].go)
            return at(b, o, n), "C.zqrt_setn(%d); return " % n + (base if t["form"] == "P" else "unsafe.Slice(%s, %d)" % (base, n))
        if t["res"] == "st" and rng.random() < 0.2:
            return NULL, "return nil"
        star = "*" if t["res"] == "sv" else ""
        if rng.random() < 0.5:
            b = struct()
            return at(b, 0, 3), "return %sNewzqStRef(C.zqrt_blk(0, %d))" % (star, b)
        b, g = mem.struct(leaves, False)
        return at(b, 0, 3), "return " + (g if star else "zqHold(&%s)" % g)

    def act(t=None):
        """(model, Go)"""
        r = rng.random()
        if t is not None and r < 0.35:
            keep = [j for j, p in enumerate(t["params"]) if p["keep"]]
            if keep:
                j = keep[0]
                p = t["params"][j]
                m = min([c["args"][j]["n"] for c in calls if types[c["t"] - 1] is t])
                e = rng.randint(1, m)
                ge = "(*p%d)" % j if p["form"] == "P" else "p%d[:%d][%d]" % (j, e, e - 1)
                if rng.random() < 0.6:
                    c, g, _ = mem.leafval(p["leaf"])
                    return {"op": "write", "p": j + 1, "j": e, "cell": c}, "%s = %s" % (ge, g)
                return {"op": "see", "p": j + 1, "j": e}, 'zqSay(zqShow(reflect.ValueOf(&%s).Elem(), "%s", -1))' % (ge, letter(p["leaf"]))
        if r < 0.6:
            n = rng.randint(1, len(calls))
            s = rng.randrange(NSLOTS)
            return {"op": "fire", "n": n, "slot": s + 1}, "zqFire(%d, %d, %d)" % (n, s, rng.choice([0, 0, 0, 1]))
        if r < 0.7:
            k = rng.randrange(ntypes)
            s, s2 = rng.randrange(NSLOTS), rng.randrange(NSLOTS)
            return {"op": "same", "t": k + 1, "slot": s + 1, "slot2": s2 + 1}, "zqSame(%d, %d, %d)" % (k + 1, s, s2)

        def pick(k):
            mine = [f + 1 for f, x in enumerate(funcs) if x["t"] == k + 1]
            f = rng.choice(mine + [0]) if mine else 0
            return f, "zqMk%d()" % f if f else "nil"
        if rng.random() < 0.6:
            k = rng.randrange(ntypes)
            f, g = pick(k)
            s = rng.randrange(NSLOTS)
            return {"op": "reg", "regs": [{"t": k + 1, "slot": s + 1, "fn": f}]}, "zqReg%d(%d, %s)" % (k + 1, s, g)
        a, b, how, q = rng.choice(pairs)
        (f, g), (f2, g2) = pick(a), pick(b)
        s, s2 = rng.randrange(NSLOTS), rng.randrange(NSLOTS)
        m = {"op": "reg", "regs": [{"t": a + 1, "slot": s + 1, "fn": f}, {"t": b + 1, "slot": s2 + 1, "fn": f2}]}
        if how == "args":
            return m, "zqTwo%d(%s, %d, %s, %d, nil)" % (q, g, s, g2, s2)
        return m, "zqTwo%d(%szqOps%d{s1: %d, f: %s, g: %s, s2: %d})" % (q, "&" if how == "struct" else "", q, s, g, g2, s2)

    def together():
        """C makes several calls at once"""
        few = rng.sample(range(1, len(calls) + 1), rng.randint(1, 4))
        fires = [(rng.choice(few), rng.randrange(NSLOTS)) for _ in range(rng.choice([2, 3, 6, 12]))]
        return ({"op": "par", "fires": [{"n": n, "slot": s + 1} for n, s in fires]},
                "zqAtOnce, zqInside = true, 0\n\t\tzqPar([]int32{%s}, %d)\n\t\tzqAtOnce = false" % (", ".join("%d, %d" % f for f in fires), len(fires)))
    for k in range(ntypes):
        for _ in range(2):
            funcs.append({"t": k + 1})
    for f, fn in enumerate(funcs):
        t = types[fn["t"] - 1]
        bodies, cases = [], []
        for b in range(rng.choice([0, 1, 2, 3])):
            acts = [act(t) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            ret, g = value(t)
            bodies.append({"acts": [a[0] for a in acts], "ret": ret})
            cases.append("\t\tcase %d:\n\t\t\t%s\n\t\t\t%s" % (b + 1, "\n\t\t\t".join(a[1] for a in acts), g))
        d, g = value(t)
        fn.update(bodies=bodies, dflt=d)
        says = []
        for j, p in enumerate(t["params"]):
            if p["k"] in ("st", "sv"):
                says.append("zqSay(zqShowSt(%sp%d))" % ("" if p["k"] == "st" else "&", j))
            else:
                lv = "t" if p["k"] == "str" else p["form"] + letter(p["leaf"])
                says.append('zqSay(zqShow(reflect.ValueOf(&p%d).Elem(), "%s", %s))' % (j, lv, "zqN[cur][%d]" % j if p["form"] == "S" else "-1"))
        gof.append("func zqMk%d() %s {\n\tid := %d + len(zqHeld)\n\treturn func(%s) %s {\n\t\tcur := int(C.zqrt_cur())\n\t\t_ = cur\n\t\tzqSay(fmt.Sprintf(\"f%%d\", id-%d+%d))\n\t\tif zqAtOnce {\n\t\t\tzqMeet(int(C.zqrt_armed()))\n\t\t}\n\t\t%s\n\t\tif zqAtOnce {\n\t\t\t%s\n\t\t}\n\t\tzqInv[%d]++\n\t\tswitch zqInv[%d] {\n%s\n\t\t}\n\t\t%s\n\t}\n}" % (
            f + 1, t["name"], 0, ", ".join("p%d %s" % (j, p["go"]) for j, p in enumerate(t["params"])), t["go"], 0, f + 1, "\n\t\t".join(says), g, f + 1, f + 1, "\n".join(cases), g))
        gof[-1] = gof[-1].replace("id := 0 + len(zqHeld)", "id := zqNil[0]").replace("id-0+%d" % (f + 1), "id+%d" % (f + 1))
    # ---- the histories
    hist, goh = [], []
    for h in range(nhist):
        ev = [act() for _ in range(rng.randint(6, 18))]
        # mostly something is there to be called
        ks = rng.sample(range(ntypes), rng.randint(2, ntypes))
        pre = []
        for k in ks:
            f = rng.choice([f + 1 for f, x in enumerate(funcs) if x["t"] == k + 1])
            s = rng.randrange(NSLOTS)
            pre.append(({"op": "reg", "regs": [{"t": k + 1, "slot": s + 1, "fn": f}]}, "zqReg%d(%d, zqMk%d())" % (k + 1, s, f)))
        ev = pre + ev
        if rng.random() < 0.5:
            rng.shuffle(ev)
        for _ in range(rng.choice([0, 1, 1, 2])):
            ev.insert(len(ev) if rng.random() < 0.5 else rng.randint(len(ev) // 2, len(ev)), together())
        hist.append([e[0] for e in ev])
        goh.append("\tfunc() {\n%s\n\t}," % "\n".join("\t\t" + e[1] for e in ev))
    model = {"params": [[p["k"] for p in t["params"]] for t in types], "res": [t["res"] for t in types], "nslots": NSLOTS,
             "funcs": [{"t": f["t"], "bodies": f["bodies"], "dflt": f["dflt"]} for f in funcs], "calls": calls}
    model["heap"] = [b["cells"] for b in mem.blocks]
    tab = ["{0, %d, (void*)zqb_0_%d%s, sizeof(zqb_0_%d)}" % (k + 1, k + 1, "", k + 1) if b["levels"] != ["st"] else "{0, %d, &zqb_0_%d, sizeof(zqb_0_%d)}" % (k + 1, k + 1, k + 1)
           for k, b in enumerate(mem.blocks) if b["own"] == "c"]
    c = [CHEAD]
    c += mem.cdecls
    c += ["static %s %szqslot%d[%d];" % (t["name"], t["star"], k + 1, NSLOTS) for k, t in enumerate(types)]
    c += impl
    c.append("static void zqfire(int n, int slot) {\n  switch (n) {\n%s\n  }\n}" % "\n".join(fire))
    c.append("static int zqarmed(int n, int slot) {\n  switch (n) {\n%s\n  }\n  return 0;\n}" % "\n".join("  case %d: return zqslot%d[slot] != 0;" % (n + 1, x["t"]) for n, x in enumerate(calls)))
    c.append("void zqSame(int t, int a, int b) {\n  switch (t) {\n%s\n  }\n}" % "\n".join('  case %d: zqrt_add(zqslot%d[a] == zqslot%d[b] ? "same" : "other"); break;' % (k + 1, k + 1, k + 1) for k in range(ntypes)))
    c.append("const struct zqrt_row zqrt_table[] = {\n%s\n{0,0,0,0}};\n" % "".join(t + ",\n" for t in tab) + callgen.CTAIL + CTAIL)
    go = GOHEAD + "\n".join(gof) + "\nvar zqN = [][]int{{}, %s}\n" % ", ".join("{%s}" % ", ".join(str(v) for v in n) for n in ns)
    go += "var zqInv [%d]int\nvar zqNil = []int{0}\nvar zqHist = []func(){\n%s\n}\n" % (len(funcs) + 1, "\n".join(goh))
    rules = {"global": [{"action": "accept", "from": "^zq"}]}
    if rng.random() < 0.3:  # other names, in Go only
        rules["type"] = rules["function"] = [rng.choice([{"transform": "export"}, {"transform": "export", "from": "^zq"}])]
        go = re.sub(r"(?<!C\.)\bzq(?=[A-Z])|(?<=\bNew)zq(?=[A-Z])", "Zq", go)
        if "from" not in rules["type"][0]:
            go = re.sub(r"(?<=\bs\.)[abc]\b|\b(a|b|c|f|g|s1|s2)(?=: )", lambda m: m.group(0).upper(), go)
    cfg = {"GENERATOR": {"PackageName": "foo", "Includes": ["foo.h"]}, "PARSER": {"SourcesPaths": ["foo.h"]},
           "TRANSLATOR": {"ConstCharIsString": True, "Rules": rules, "PtrTips": {"function": tips}}}
    return {"cfg": cfg, "header": "#ifndef FOO_H\n#define FOO_H\n" + "\n".join(head + regs) + "\n#endif\n", "c": "\n".join(c), "go": go,
            "model": model, "hist": hist}


def letter(leaf):
    return {"u": "u", "p": "p"}.get(leaf.kind, "i")


CHEAD = callgen.CHEAD.replace("#include <unistd.h>", "#include <unistd.h>\n#include <stdlib.h>\n#include <pthread.h>").replace(
    'static void zqrt_add(const char *s) { if (strlen(zqrt_buf) + strlen(s) + 2 < sizeof zqrt_buf) { strcat(zqrt_buf, "|"); strcat(zqrt_buf, s); } }',
    '''/* what a thread says, and what Go and C have to tell each other about the call on it */
struct zqrt_ctx { char text[1 << 18]; int comp, cur, n; };
static struct zqrt_ctx zqrt_main;
static __thread struct zqrt_ctx *zqrt_ctx;
static struct zqrt_ctx *zqrt_c(void) { return zqrt_ctx ? zqrt_ctx : &zqrt_main; }
void zqrt_add(const char *s) {
  struct zqrt_ctx *c = zqrt_c();
  if (strlen(c->text) + strlen(s) + 2 < sizeof c->text) { strcat(c->text, c->comp == 0 ? "|" : c->comp == 1 ? "" : ","); strcat(c->text, s); if (c->comp) c->comp = 2; }
}
static void zqrt_open(const char *s) { zqrt_add(s); zqrt_c()->comp = 1; }
static void zqrt_close(const char *s) { strcat(zqrt_c()->text, s); zqrt_c()->comp = 0; }
const char *zqrt_said(void) { return zqrt_c()->text; }
int zqrt_cur(void) { return zqrt_c()->cur; }
void zqrt_setn(int n) { zqrt_c()->n = n; }
''')
CHEAD += '''
static void zqrt_st(const zqSt *s) { if (!s) { zqrt_add("nil"); return; } zqrt_open("{"); zqrt_i(s->a); ZQRT_B(s->b); zqrt_i(s->c); zqrt_close("}"); }
static void (*zqrt_use2[])() __attribute__((unused)) = {zqrt_open, zqrt_close, zqrt_st};
'''
CHEAD = CHEAD.replace("ZQRT_B(s->b)", "if (_Generic(s->b, double: 1, default: 0)) zqrt_i((long long)(s->b * 4096)); else zqrt_i((long long)s->b)")
CTAIL = '''
struct zqrt_job { int n, slot; struct zqrt_ctx *ctx; };
static void *zqrt_thread(void *p) { struct zqrt_job *j = p; zqrt_ctx = j->ctx; zqfire(j->n, j->slot); return 0; }
void zqFire(int n, int slot, int thr) {
  if (!thr) { zqfire(n, slot); return; }
  struct zqrt_job j = {n, slot, zqrt_c()};
  pthread_t t;
  pthread_create(&t, 0, zqrt_thread, &j);
  pthread_join(t, 0);
}
static int zqrt_narmed;
int zqrt_armed(void) { return zqrt_narmed; }
/* k calls at once, each on its own thread */
void zqPar(int *n, int k) {
  zqrt_narmed = 0;
  for (int i = 0; i < k; i++) zqrt_narmed += zqarmed(n[2 * i], n[2 * i + 1]);
  struct zqrt_job *j = calloc(k, sizeof *j);
  pthread_t *t = calloc(k, sizeof *t);
  for (int i = 0; i < k; i++) { j[i].n = n[2 * i]; j[i].slot = n[2 * i + 1]; j[i].ctx = calloc(1, sizeof *j[i].ctx); }
  for (int i = 0; i < k; i++) pthread_create(&t[i], 0, zqrt_thread, &j[i]);
  for (int i = 0; i < k; i++) { pthread_join(t[i], 0); zqrt_add(j[i].ctx->text[0] ? j[i].ctx->text + 1 : "silent"); free(j[i].ctx); }
  free(j); free(t);
}
'''
RTH = callgen.RTH.replace("#endif", "int zqrt_cur(void);\nint zqrt_armed(void);\nvoid zqrt_setn(int n);\nconst char *zqrt_said(void);\nvoid zqrt_add(const char *s);\n#endif")
_g = callgen.GOHEAD
GOHEAD = '''package foo

/*
#cgo LDFLAGS: -lpthread
#include <stdlib.h>
#include "foo.h"
#include "zqrt.h"
*/
import "C"
import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

var zqHeld []*zqSt
var zqMux sync.Mutex
var zqAtOnce bool
var zqInside int

// zqMeet waits for the other calls that are made at the same time.
func zqMeet(n int) {
	zqMux.Lock()
	zqInside++
	zqMux.Unlock()
	for k := 0; k < 300; k++ {
		zqMux.Lock()
		all := zqInside >= n
		zqMux.Unlock()
		if all {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func zqHold(s *zqSt) *zqSt {
	zqMux.Lock()
	defer zqMux.Unlock()
	zqHeld = append(zqHeld, s)
	return s
}
func zqSay(s string) {
	c := C.CString(s)
	C.zqrt_add(c)
	C.free(unsafe.Pointer(c))
}
func zqShowSt(s *zqSt) string {
	if s == nil {
		return "nil"
	}
	s.Deref()
	return "{" + zqShow(reflect.ValueOf(&s.a).Elem(), "i", -1) + "," + zqShow(reflect.ValueOf(&s.b).Elem(), "i", -1) + "," + zqShow(reflect.ValueOf(&s.c).Elem(), "i", -1) + "}"
}

// Zqrun runs a history.
func Zqrun() {
	if os.Getenv("ZQGC") != "" {
		go func() {
			for {
				runtime.GC()
			}
		}()
	}
	n, _ := strconv.Atoi(os.Args[1])
	zqHist[n]()
	out := []string{}
	if s := C.GoString(C.zqrt_said()); s != "" {
		for _, e := range strings.Split(s[1:], "|") {
			out = append(out, strconv.Quote(e))
		}
	}
	fmt.Printf("{\\"log\\":[%s]}\\n", strings.Join(out, ","))
}

''' + _g[_g.index("func zqCast"):_g.index("func zqQ")] + _g[_g.index("func zqShow("):_g.index("// Zqrun runs")]
