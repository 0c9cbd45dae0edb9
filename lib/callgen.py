"""Packages of C functions with scenarios for Calls.tla: the header for c-for-go, the C
code that looks at what it is given, the Go code that makes the calls, and the model of
each scenario."""
import json

# name: (C, Go, kind)
SCALARS = {
    "char": ("char", "byte", "c"), "schar": ("signed char", "int8", "i8"), "uchar": ("unsigned char", "byte", "u8"),
    "short": ("short", "int16", "i16"), "ushort": ("unsigned short", "uint16", "u16"), "int": ("int", "int32", "i32"), "uint": ("unsigned int", "uint32", "u32"),
    "long": ("long", "int64", "i64"), "ulong": ("unsigned long", "uint64", "u64"), "llong": ("long long", "int64", "i64"), "ullong": ("unsigned long long", "uint64", "u64"),
    "float": ("float", "float32", "f"), "double": ("double", "float64", "f"), "bool": ("_Bool", "bool", "b"),
}
NAMED = {
    "zqAl": ("zqAl", "zqAl", None), "hxal": ("hxal", None, None), "zqEn": ("zqEn", "zqEn", "e"), "zqUn": ("zqUn", "zqUn", "u"),
    "zqHa": ("zqHa", "zqHa", "p"), "void": ("void*", "unsafe.Pointer", "p"), "opaque": ("zqOp*", "*zqOp", "p"),
}


def rvalue(rng, kind):
    if kind == "b":
        return rng.choice([0, 1])
    if kind == "f":
        return rng.randint(-10 ** 6, 10 ** 6)  # sixteenths
    if kind == "e":
        return rng.choice([0, 1, 2, 7])
    if kind == "u":
        return "".join("%02x" % rng.randrange(256) for _ in range(8))
    bits = 8 if kind == "c" else int(kind[1:])
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if kind[0] == "i" else (0, (1 << bits) - 1)
    return rng.choice([lo, hi, hi - 1, lo + 1, rng.randint(lo, hi), rng.randint(lo, hi), max(lo, min(hi, rng.randint(-100, 100)))])


def vshow(kind, v):
    return str(v * 256) if kind == "f" else str(v)


def cval(kind, v):
    if kind == "f":
        return "(%d/16.0)" % v
    if kind == "u":
        return "{.b={%s}}" % ",".join("0x" + v[j:j + 2] for j in range(0, 16, 2))
    if kind == "c":
        return "(char)%d" % v
    if kind[0] == "u":
        return "%dULL" % v
    if v == -(1 << 63):
        return "(-9223372036854775807LL-1)"
    return "%dLL" % v if kind != "e" else "%d" % v


def goval(kind, v, gotype):
    if kind == "b":
        return "true" if v else "false"
    if kind == "f":
        return "%s" % (v / 16.0)
    if kind == "u":
        return gotype + "{" + ",".join("0x" + v[j:j + 2] for j in range(0, 16, 2)) + "}"
    return str(v)


class Leaf:
    def __init__(self, name, c, go, kind):
        self.name, self.c, self.go, self.kind = name, c, go, kind


def P(b, o):
    return {"k": "p", "v": "", "b": b, "o": o, "n": 0}


NULL = P(0, 0)


def SC(v):
    return {"k": "s", "v": v, "b": 0, "o": 0, "n": 0}


def SL(b, o, n):
    return {"k": "sl", "v": "", "b": b, "o": o, "n": n}


def gotype(levels, leaf):
    s = "".join({"S": "[]", "P": "*"}[l] for l in levels[:-1])
    return s + ("string" if levels[-1] == "str" else leaf.go)


class Scenario:
    def __init__(self, rng, fn, num):
        self.rng, self.fn, self.num = rng, fn, num
        self.blocks = []    # own, leaf, levels of the cells, cells, raw
        self.golines, self.cdecls = [], []
        self.raws = []

    # ---- memory
    def block(self, own, leaf, levels, cells, nodes=None):
        self.blocks.append({"own": own, "leaf": leaf, "levels": levels, "cells": cells, "nodes": nodes})
        return len(self.blocks)

    def raw(self):
        if self.raws and self.rng.random() < 0.4:
            return self.rng.choice(self.raws)
        b = self.block("c", None, ["raw"], [SC("raw")])
        self.cdecls.append("static char zqb_%d_%d[16];" % (self.num, b))
        self.raws.append(b)
        return b

    def text(self):
        r = self.rng
        h = "".join("%02x" % r.randrange(1, 256) for _ in range(r.choice([0, 1, 2, 5, 12, 90])))
        b = self.block("c", None, ["text"], [SC(h)])
        self.cdecls.append("static char zqb_%d_%d[] = {%s};" % (self.num, b, ",".join(["(char)0x" + h[j:j + 2] for j in range(0, len(h), 2)] + ["0"])))
        return b

    def leafval(self, leaf):
        """(cell, Go expression, C expression)"""
        if leaf.kind == "p":
            if self.rng.random() < 0.2:
                return NULL, "zqCast[%s](nil)" % leaf.go, "0"
            b = self.raw()
            return P(b, 0), "zqCast[%s](C.zqrt_blk(%d, %d))" % (leaf.go, self.num, b), "(%s)(void*)zqb_%d_%d" % (leaf.c, self.num, b)
        v = rvalue(self.rng, leaf.kind)
        return SC(vshow(leaf.kind, v)), goval(leaf.kind, v, leaf.go), cval(leaf.kind, v)

    def cblock(self, leaf, n):
        vals = [self.leafval(leaf) for _ in range(n)]
        b = self.block("c", leaf, ["v"], [v[0] for v in vals])
        self.cdecls.append("static %s zqb_%d_%d[] = {%s};" % (leaf.c, self.num, b, ", ".join(v[2] for v in vals)))
        return b

    def goblock(self, leaf, levels, n, conly):
        gt = gotype(levels, leaf)
        cells, exprs, nodes = [], [], []
        for _ in range(n):
            c, e, nd = self.value(levels, leaf, conly)
            cells.append(c)
            exprs.append(e)
            nodes.append(nd)
        b = self.block("go", leaf, levels, cells, nodes)
        self.golines.append("b%d := []%s{%s}" % (b, gt, ", ".join(exprs)))
        return b

    def strval(self):
        r = self.rng
        n = r.choice([0, 1, 3, 3, 8, 40, 300])
        return "".join("%02x" % (r.randrange(1, 256) if r.random() > 0.01 else 0) for _ in range(n))

    def value(self, levels, leaf, conly):
        """(cell, Go expression, tree)"""
        r = self.rng
        if levels == ["v"]:
            c, g, _ = self.leafval(leaf)
            return c, g, {"levels": levels, "cell": c}
        if levels == ["str"]:
            h = self.strval()
            c = {"k": "str", "v": h, "b": 0, "o": 0, "n": 0}
            return c, '"%s"' % "".join("\\x" + h[j:j + 2] for j in range(0, len(h), 2)), {"levels": levels, "cell": c}
        rest, ptr = levels[1:], levels[0] == "P"
        if r.random() < 0.12:
            c = SL(0, 0, 1 if ptr else 0)
            return c, "nil", {"levels": levels, "cell": c, "null": True}
        n = 1 if ptr else r.choice([0, 1, 1, 2, 3, 4])
        b = 0
        if rest == ["v"]:
            own = ["c"] if conly and ptr else ["c", "go"]
            old = [k + 1 for k, bl in enumerate(self.blocks) if bl["leaf"] is not None and bl["leaf"].name == leaf.name and bl["levels"] == ["v"] and len(bl["cells"]) >= n and bl["own"] in own]
            if old and r.random() < 0.35:
                b = r.choice(old)
            elif (conly and ptr) or r.random() < 0.15:
                b = self.cblock(leaf, max(1, n + r.choice([0, 0, 2])))
        if not b:
            b = self.goblock(leaf, rest, max(1, n) + r.choice([0, 0, 1, 3]), conly)
        bl = self.blocks[b - 1]
        o = r.randint(0, len(bl["cells"]) - max(n, 1))
        kids = [bl["nodes"][o + j] if bl["nodes"] else {"levels": ["v"], "cell": bl["cells"][o + j]} for j in range(n)]
        if bl["own"] == "go":
            g = "&b%d[%d]" % (b, o) if ptr else r.choice(["b%d[%d:%d]", "b%d[%d:%d:%%d]" % () if False else "b%d[%d:%d]"]) % (b, o, o + n)
        else:
            base = "(*%s)(zqOff(C.zqrt_blk(%d, %d), %d, unsafe.Sizeof(*new(%s))))" % (leaf.go, self.num, b, o, leaf.go)
            base = "zqCast[*%s](zqOff(C.zqrt_blk(%d, %d), %d, unsafe.Sizeof(*new(%s))))" % (leaf.go, self.num, b, o, leaf.go)
            g = base if ptr else "unsafe.Slice(%s, %d)" % (base, n)
        c = SL(b, o, n)
        return c, g, {"levels": levels, "cell": c, "kids": kids}

    # ---- what C does
    def cpath(self, a, path):
        return "%s%s" % (self.fn["params"][a]["name"], "".join("[%d]" % j for j in path))

    def clog(self, leaf, e):
        k = leaf.kind
        if k == "p":
            return "zqrt_p(%s);" % e
        if k == "u":
            return "zqrt_h(&%s, 8);" % e
        if k == "f":
            return "zqrt_i((long long)(%s * 4096));" % e
        if k in ("c", "u8"):
            return "zqrt_i((unsigned char)(%s));" % e
        if k in ("u64",):
            return "zqrt_u(%s);" % e
        return "zqrt_i((long long)(%s));" % e

    def command(self, a):
        r = self.rng
        prm = self.fn["params"][a]
        leaf, node, path = prm["leaf"], self.trees[a], []
        while True:
            lv = node["levels"]
            e = self.cpath(a, path)
            if len(lv) == 1:
                if lv == ["str"]:
                    return {"op": "text", "arg": a + 1, "path": path, "cell": NULL}, "zqrt_t(%s);" % e
                if path and not prm["const"] and r.random() < 0.45:
                    c, _, ce = self.leafval(leaf)
                    node["cell"] = c
                    if leaf.kind == "u":
                        ce = "(zqUn)" + ce
                    return {"op": "write", "arg": a + 1, "path": path, "cell": c}, "%s = %s;" % (e, ce)
                return {"op": "read", "arg": a + 1, "path": path, "cell": NULL}, self.clog(leaf, e)
            deep = path and (len(lv) > 2 or lv[1] == "str")
            if node.get("null") or not node["kids"] or r.random() < 0.1:
                if deep and node.get("null"):
                    return None
                return {"op": "isnull", "arg": a + 1, "path": path, "cell": NULL}, "zqrt_null(%s);" % e
            j = r.randrange(len(node["kids"]))
            kid = node["kids"][j]
            kl = kid["levels"]
            if (kl == ["str"] or (len(kl) == 2 and kl[1] == "v")) and r.random() < (0.3 if lv[0] == "S" else 0.15) and (kl == ["str"] or not prm["const"]):
                where = path + [j]
                e = self.cpath(a, where)
                if kl == ["str"]:
                    b = self.text() if r.random() < 0.8 else 0
                    cell = P(b, 0) if b else NULL
                    node["kids"][j] = {"levels": kl, "cell": cell}
                    return {"op": "write", "arg": a + 1, "path": where, "cell": cell}, "%s = %s;" % (e, "zqb_%d_%d" % (self.num, b) if b else "0")
                n = kid["cell"]["n"]
                if r.random() < 0.2:
                    node["kids"][j] = {"levels": kl, "cell": SL(0, 0, n), "null": True}
                    return {"op": "write", "arg": a + 1, "path": where, "cell": NULL}, "%s = 0;" % e
                b = self.cblock(leaf, max(1, n) + r.choice([0, 2]))
                o = r.randint(0, len(self.blocks[b - 1]["cells"]) - max(1, n))
                m = len(self.blocks[b - 1]["cells"]) - o
                node["kids"][j] = {"levels": kl, "cell": SL(b, o, n), "kids": [{"levels": ["v"], "cell": None} for _ in range(m)]}
                return {"op": "write", "arg": a + 1, "path": where, "cell": P(b, o)}, "%s = zqb_%d_%d + %d;" % (e, self.num, b, o)
            node, path = kid, path + [j]

    def build(self):
        r, fn = self.rng, self.fn
        args, self.trees, self.goargs = [], [], []
        for p in fn["params"]:
            conly = p["levels"] in (["S", "P", "v"], ["P", "P", "v"])
            c, g, t = self.value(p["levels"], p["leaf"], conly)
            args.append(c)
            self.goargs.append(g)
            self.trees.append(t)
        cmds, cl = [], []
        direct = [a for a, p in enumerate(fn["params"]) if len(p["levels"]) == 2 and p["levels"][1] == "v" and (args[a]["b"] == 0 or args[a]["n"] > 0)]
        for _ in range(r.choice([1, 3, 6, 6, 10]) if fn["params"] else 0):
            if len(direct) > 1 and r.random() < 0.1:
                a, b = r.sample(direct, 2)
                cmds.append({"op": "same", "arg": a + 1, "path": [b + 1], "cell": NULL})
                cl.append("zqrt_same(%s, %s);" % (self.cpath(a, []), self.cpath(b, [])))
                continue
            m = self.command(r.randrange(len(fn["params"])))
            if m:
                cmds.append(m[0])
                cl.append(m[1])
        ret, n = NULL, 0
        rt = fn["ret"]
        rexpr = ""
        if rt:
            lv, leaf = rt["levels"], rt["leaf"]
            if lv == ["v"]:
                ret, _, rexpr = self.leafval(leaf)
                if leaf.kind == "u":
                    rexpr = "(zqUn)" + rexpr
            elif lv == ["str"]:
                if r.random() < 0.15:
                    rexpr = "0"
                else:
                    b = self.text()
                    ret, rexpr = P(b, 0), "zqb_%d_%d" % (self.num, b)
            else:
                mine = [a for a, p in enumerate(fn["params"]) if p["leaf"].name == leaf.name and len(p["levels"]) == 2 and p["levels"][1] == "v" and not p["const"] and args[a]["b"] and args[a]["n"]]
                if r.random() < 0.2:
                    rexpr = "0"
                elif mine and r.random() < 0.5:
                    a = r.choice(mine)
                    o = r.randrange(args[a]["n"])
                    ret, rexpr, n = P(args[a]["b"], args[a]["o"] + o), "%s + %d" % (self.cpath(a, []), o), r.randint(1, args[a]["n"] - o)
                else:
                    b = self.cblock(leaf, r.randint(1, 4))
                    m = len(self.blocks[b - 1]["cells"])
                    o = r.randrange(m)
                    ret, rexpr, n = P(b, o), "zqb_%d_%d + %d" % (self.num, b, o), r.randint(1, m - o)
                if lv[0] == "P":
                    n = 1
        copied = any(len(p["levels"]) > 2 or p["levels"][-1] == "str" for p in fn["params"])
        self.c = "  case %d: %s%s return%s;" % (self.num, "zqrt_enter(%d); " % copied, " ".join(cl), " " + rexpr if rt else "")
        self.x = {"types": [p["levels"] for p in fn["params"]], "args": args, "heap": [b["cells"] for b in self.blocks], "cmds": cmds,
                  "ret": {"type": rt["levels"] if rt else [], "cell": ret, "n": n}}
        lets = lambda lv, leaf: "".join(lv[:-1]) + ("t" if lv[-1] == "str" else {"u": "u", "p": "p"}.get(leaf.kind, "i"))
        g = ["func zqS%d() {" % self.num] + ["\t" + l for l in self.golines]
        names = []
        for k, (e, p) in enumerate(zip(self.goargs, fn["params"])):
            g.append("\tvar a%d %s = %s" % (k, gotype(p["levels"], p["leaf"]), e))
            names.append("a%d" % k)
        call = "%s(%s)" % (fn["name"], ", ".join(names))
        if fn.get("inst") is not None:
            k = fn["inst"]
            call = "%s.%s(%s)" % (names[k], fn["name"], ", ".join(names[:k] + names[k + 1:]))
        g.append("\tz := zqBegin(%d)" % self.num)
        g.append("\tdefer z.trap()")
        g.append("\t%s%s" % ("ret := " if rt else "", call))
        g.append("\tz.log()")
        if rt:
            g.append('\tz.ret(zqShow(reflect.ValueOf(&ret).Elem(), "%s", %d))' % (lets(rt["levels"], rt["leaf"]), n if len(rt["levels"]) > 1 else -1))
        for k, p in enumerate(fn["params"]):
            g.append('\tz.after(zqShow(reflect.ValueOf(&a%d).Elem(), "%s", -1))' % (k, lets(p["levels"], p["leaf"])))
        g.append("\tz.end()")
        g.append("}")
        self.go = "\n".join(g)
        self.tab = ["{%d, %d, zqb_%d_%d, sizeof(zqb_%d_%d)}" % (self.num, k + 1, self.num, k + 1, self.num, k + 1) for k, b in enumerate(self.blocks) if b["own"] == "c"]
        return self


def gen_package(rng, nfn=36, per=3):
    al, hx = rng.choice(["int", "ushort", "uchar", "double", "llong"]), rng.choice(["short", "uint", "float", "schar"])
    tname = {"zqAl": SCALARS[al][2], "hxal": SCALARS[hx][2]}
    leaves = {}
    drop = [rng.choice(["char", "uchar"]), rng.choice(["long", "llong"]), rng.choice(["ulong", "ullong"])]  # helpers are named by Go's types
    if al == "uchar" or hx == "uchar":
        drop.append("uchar")
    for n, (c, g, k) in SCALARS.items():
        leaves[n] = Leaf(n, c, g, k)
    for n, (c, g, k) in NAMED.items():
        leaves[n] = Leaf(n, c, g or SCALARS[hx][1], k or tname[n])
    head = ["typedef %s zqAl;" % SCALARS[al][0], "typedef %s hxal;" % SCALARS[hx][0], "typedef enum zqEn_e {ZQ_A, ZQ_B, ZQ_C, ZQ_D = 7} zqEn;",
            "typedef union zqUn_u {char b[8]; int i; double d;} zqUn;", "typedef struct zqHa_T *zqHa;", "typedef struct zqOp_T zqOp;"]
    fns, tips = [], []
    plain = [n for n in SCALARS if n not in drop]
    for f in range(nfn):
        fn = {"name": "zqF%d" % f, "params": [], "ret": None}
        ptips, decls = [], []
        share = rng.choice(plain)
        for k in range(rng.choice([0, 1, 2, 2, 3, 3, 4])):
            name = rng.choice(["a", "x", "buf", "type", "len", "val", "ptr"]) + str(k)
            form = rng.random()
            const, tip = False, "0"
            base = share if rng.random() < 0.4 else rng.choice(plain)
            if form < 0.1:
                leaf, levels, d = leaves["char"], ["str"], "const char *" + name
            elif form < 0.2:
                leaf, levels, d = leaves["char"], ["S", "str"], "const char **" + name
            elif form < 0.23:
                leaf, levels, d = leaves["char"], ["S", "S", "str"], "const char ***" + name
            elif form < 0.33:
                b = rng.choice(["zqAl", "hxal", "zqEn", "zqUn", "zqHa", "void"])
                leaf, levels, d = leaves[b], ["v"], leaves[b].c + " " + name
            elif form < 0.43:
                b = rng.choice(["zqAl", "hxal", "zqEn", "zqUn", "zqHa", "void"])
                leaf, levels, d = leaves[b], ["S", "v"], leaves[b].c + " *" + name
                if b != "void" and rng.random() < 0.4:
                    tip, levels = rng.choice(["ref", "sref"]), ["P", "v"]
            elif form < 0.48:
                leaf, levels, d = leaves["opaque"], ["v"], "zqOp *" + name
                tip = rng.choice(["ref", "sref"])
                if "inst" not in fn and rng.random() < 0.5:
                    tip, fn["inst"] = "inst", k
            elif form < 0.52:
                leaf, levels, d, tip = leaves["opaque"], ["S", "v"], "zqOp **" + name, "ref"
            elif form < 0.62:
                leaf, levels, d = leaves[base], ["v"], leaves[base].c + " " + name
            else:
                b = base if rng.random() < 0.7 else rng.choice(["zqAl", "hxal", "zqEn", "zqUn"])
                leaf = leaves[b]
                p = rng.choice([1, 1, 1, 1, 1, 2, 2, 3])
                if p == 1 and rng.random() < 0.2:
                    levels, d = ["S", "v"], "%s %s[%d]" % (leaf.c, name, rng.randint(1, 5))
                else:
                    const = p == 1 and b not in ("char",) and rng.random() < 0.2
                    levels, d = ["S"] * p + ["v"], ("const " if const else "") + leaf.c + " " + "*" * p + name
                    if rng.random() < 0.35:
                        if p == 1:
                            tip = rng.choice(["ref", "sref"])
                            levels = ["P", "v"]
                        elif b in SCALARS:
                            tip = rng.choice(["ref", "sref"]) if p == 2 else "sref"
                            levels = (["P", "P", "v"] if tip == "ref" else ["S", "P", "v"]) if p == 2 else ["S", "S", "P", "v"]
                    elif p == 1 and rng.random() < 0.2:
                        tip = "arr"
            fn["params"].append({"name": name, "leaf": leaf, "levels": levels, "const": const})
            ptips.append(tip)
            decls.append(d)
        self_ = "0"
        rt = "void "
        q = rng.random()
        if q < 0.15:
            fn["ret"], rt = {"levels": ["str"], "leaf": leaves["char"]}, "const char *"
        elif q < 0.5:
            b = rng.choice(plain + ["zqAl", "hxal", "zqEn", "zqUn", "zqHa", "void", "opaque"])
            fn["ret"], rt = {"levels": ["v"], "leaf": leaves[b]}, leaves[b].c + " "
        elif q < 0.85:
            b = share if rng.random() < 0.6 else rng.choice(plain + ["zqAl", "hxal", "zqEn", "zqUn", "zqHa"])
            arr = rng.random() < 0.5
            fn["ret"], rt = {"levels": ["S" if arr else "P", "v"], "leaf": leaves[b]}, leaves[b].c + " *"
            if arr:
                self_ = "arr"
            elif rng.random() < 0.3:
                self_ = "ref"
        fn["decl"] = "%s%s(%s)" % (rt, fn["name"], ", ".join(decls) or "void")
        if any(t != "0" for t in ptips) or self_ != "0":
            t = {"target": "^%s$" % fn["name"], "tips": ptips}
            if self_ != "0":
                t["self"] = self_
            tips.append(t)
        fns.append(fn)
    cfg = {"GENERATOR": {"PackageName": "foo", "Includes": ["foo.h"]}, "PARSER": {"SourcesPaths": ["foo.h"]},
           "TRANSLATOR": {"ConstCharIsString": True, "Rules": {"global": [{"action": "accept", "from": "^zq"}]}, "PtrTips": {"function": tips}}}
    if rng.random() < 0.4:
        cfg["GENERATOR"]["Options"] = {"SafeStrings": True}
    num, scen, c, tab, go = 0, [], [], [], []
    for fn in fns:
        cases = []
        for _ in range(per):
            num += 1
            s = Scenario(rng, fn, num).build()
            scen.append(s.x)
            c += s.cdecls
            tab += s.tab
            cases.append(s.c)
            go.append(s.go)
        zero = "" if not fn["ret"] else " (zqUn){.i=0}" if fn["ret"]["levels"] == ["v"] and fn["ret"]["leaf"].kind == "u" else " 0"
        c.append("%s {\n  switch (zqrt_case) {\n%s\n  }\n  zqrt_bad();\n  return%s;\n}" % (fn["decl"], "\n".join(cases), zero))
    ctext = CHEAD + "\n".join(c) + "\nconst struct zqrt_row zqrt_table[] = {\n%s\n{0,0,0,0}};\n" % "".join(t + ",\n" for t in tab) + CTAIL
    gotext = GOHEAD + "\n".join(go) + "\nvar zqAll = []func(){%s}\n" % ", ".join("zqS%d" % k for k in range(1, num + 1))
    return {"cfg": cfg, "header": "#ifndef FOO_H\n#define FOO_H\n" + "\n".join(head + [fn["decl"] + ";" for fn in fns]) + "\n#endif\n", "c": ctext, "go": gotext, "scen": scen}


RTH = """#ifndef ZQRT_H
#define ZQRT_H
#include <stddef.h>
struct zqrt_row { int s, b; void *p; size_t n; };
void zqrt_begin(int s, int nap);
const char *zqrt_text(void);
void zqrt_together(int n);
void *zqrt_blk(int s, int b);
int zqrt_id(const void *p);
#endif
"""
CHEAD = """#include "foo.h"
#include "zqrt.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
static __thread int zqrt_case, zqrt_nap;
static __thread char zqrt_buf[1 << 16];
void zqrt_begin(int s, int nap) { zqrt_case = s; zqrt_nap = nap; zqrt_buf[0] = 0; }
const char *zqrt_text(void) { return zqrt_buf; }
static void zqrt_add(const char *s) { if (strlen(zqrt_buf) + strlen(s) + 2 < sizeof zqrt_buf) { strcat(zqrt_buf, "|"); strcat(zqrt_buf, s); } }
static int zqrt_group, zqrt_inside;
static pthread_mutex_t zqrt_mux = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t zqrt_all = PTHREAD_COND_INITIALIZER;
/* waits for all calls of the group to be in C */
static void zqrt_meet(void) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  t.tv_sec += 4;
  pthread_mutex_lock(&zqrt_mux);
  if (++zqrt_inside >= zqrt_group) pthread_cond_broadcast(&zqrt_all);
  while (zqrt_inside < zqrt_group) if (pthread_cond_timedwait(&zqrt_all, &zqrt_mux, &t)) break;
  pthread_mutex_unlock(&zqrt_mux);
}
void zqrt_together(int n) { zqrt_group = n; zqrt_inside = 0; }
static void zqrt_enter(int copied) { if (zqrt_group) zqrt_meet(); else if (zqrt_nap && copied) usleep(zqrt_nap); }
static void zqrt_i(long long v) { char b[40]; snprintf(b, sizeof b, "%lld", v); zqrt_add(b); }
static void zqrt_u(unsigned long long v) { char b[40]; snprintf(b, sizeof b, "%llu", v); zqrt_add(b); }
static void zqrt_h(const void *p, size_t n) { char b[4096]; char *q = b; const unsigned char *s = p; *q = 0; for (size_t i = 0; i < n && i < 2000; i++) q += sprintf(q, "%02x", s[i]); zqrt_add(b); }
static void zqrt_t(const char *s) { if (!s) zqrt_add("null"); else zqrt_h(s, strnlen(s, 2000)); }
static void zqrt_null(const void *p) { zqrt_add(p ? "ptr" : "null"); }
static void zqrt_same(const void *p, const void *q) { zqrt_add(p == q ? "same" : "other"); }
static void zqrt_p(const void *p) { char b[40]; if (!p) { zqrt_add("nil"); return; } snprintf(b, sizeof b, "b%d", zqrt_id(p)); zqrt_add(b); }
static void zqrt_bad(void) { zqrt_add("another case"); }
static void (*zqrt_use[])() __attribute__((unused)) = {zqrt_enter, zqrt_i, zqrt_u, zqrt_h, zqrt_t, zqrt_null, zqrt_same, zqrt_p, zqrt_bad};
"""
CTAIL = """
void *zqrt_blk(int s, int b) { for (const struct zqrt_row *r = zqrt_table; r->p; r++) if (r->s == s && r->b == b) return r->p; return 0; }
int zqrt_id(const void *p) { for (const struct zqrt_row *r = zqrt_table; r->p; r++) if (r->s == zqrt_case && (char*)p >= (char*)r->p && (char*)p < (char*)r->p + r->n) return r->b; return -1; }
"""
GOHEAD = """package foo

/*
#cgo LDFLAGS: -lpthread
#include "foo.h"
#include "zqrt.h"
*/
import "C"
import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// a call and what is known about it
type zqCall struct {
	num       int
	out, said []string
	result    string
}

var zqGC = os.Getenv("ZQGC") != ""
var zqPar = os.Getenv("ZQPAR") != ""
var zqMux sync.Mutex

func zqCast[T any](p unsafe.Pointer) T { return *(*T)(unsafe.Pointer(&p)) }
func zqOff(p unsafe.Pointer, n int, size uintptr) unsafe.Pointer { return unsafe.Add(p, n*int(size)) }
func zqQ(s []string) string {
	q := []string{}
	for _, e := range s {
		q = append(q, strconv.Quote(e))
	}
	return "[" + strings.Join(q, ",") + "]"
}
func zqBegin(n int) *zqCall {
	nap := 0
	if zqGC {
		nap = 6000
	}
	C.zqrt_begin(C.int(n), C.int(nap))
	return &zqCall{num: n}
}
func (z *zqCall) log() {
	s := C.GoString(C.zqrt_text())
	if s != "" {
		z.said = strings.Split(s[1:], "|")
	}
	if zqGC {
		runtime.GC()
		runtime.GC()
		time.Sleep(300 * time.Microsecond)
	}
}
func (z *zqCall) ret(s string)   { z.result = s }
func (z *zqCall) after(s string) { z.out = append(z.out, s) }
func (z *zqCall) end() {
	zqMux.Lock()
	defer zqMux.Unlock()
	fmt.Printf("{\\"n\\":%d,\\"log\\":%s,\\"ret\\":%q,\\"after\\":%s}\\n", z.num, zqQ(z.said), z.result, zqQ(z.out))
}
func (z *zqCall) trap() {
	if e := recover(); e != nil {
		z.said, z.out, z.result = append(z.said, "panic"), []string{"panic"}, strings.ReplaceAll(strings.ReplaceAll(fmt.Sprint(e), "\\"", "'"), "\\\\", "/")
		z.end()
	}
}
func zqShow(v reflect.Value, lv string, n int) string {
	switch lv[0] {
	case 'S':
		if v.Pointer() == 0 {
			return "nil"
		}
		if n >= 0 {
			v = v.Slice3(0, n, n)
		}
		out := []string{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, zqShow(v.Index(i), lv[1:], -1))
		}
		return "[" + strings.Join(out, ",") + "]"
	case 'P':
		if v.IsNil() {
			return "nil"
		}
		return "[" + zqShow(v.Elem(), lv[1:], -1) + "]"
	case 't':
		return fmt.Sprintf("%x", v.String())
	case 'u':
		b := []byte{}
		for i := 0; i < v.Len(); i++ {
			b = append(b, byte(v.Index(i).Uint()))
		}
		return fmt.Sprintf("%x", b)
	case 'p':
		p := v.Pointer()
		if p == 0 {
			return "nil"
		}
		return "b" + strconv.Itoa(int(C.zqrt_id(*(*unsafe.Pointer)(unsafe.Pointer(&p)))))
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return "1"
		}
		return "0"
	case reflect.Float32, reflect.Float64:
		return strconv.FormatInt(int64(v.Float()*4096), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	}
	return strconv.FormatInt(v.Int(), 10)
}

// Zqrun runs the scenarios.
func Zqrun() {
	runtime.LockOSThread()
	if zqGC {
		go func() {
			for {
				runtime.GC()
			}
		}()
	}
	if zqPar {
		var all sync.WaitGroup
		C.zqrt_together(C.int(len(zqAll)))
		for _, f := range zqAll {
			all.Add(1)
			go func() {
				defer all.Done()
				runtime.LockOSThread()
				f()
			}()
		}
		all.Wait()
		return
	}
	for _, f := range zqAll {
		f()
	}
}

"""
MAIN = "package main\n\nimport \"foo/foo\"\n\nfunc main() { foo.Zqrun() }\n"
