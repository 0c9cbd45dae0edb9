"""Headers whose declarations are drawn from the shapes that c-for-go supports, with the
interface that Surface.tla says the generated package has. The supported shapes (position,
kind of base type, declarator, pointer tip) are in compgrid.json."""
import json, os, re

GRID = {}
for _k, _v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "compgrid.json"))).items():
    _p, _b = _k.split("|")
    GRID[_p, _b] = [tuple(x.split("|")) for x in _v]

SCALARS = {
    "int": ["int", "short", "unsigned short", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "signed char", "float", "int16_t", "uint64_t", "int32_t"],
    "double": ["double"], "uint8_t": ["uint8_t"], "size_t": ["size_t"], "char": ["char"], "const char": ["const char"], "unsigned char": ["unsigned char"], "void": ["void"],
}
WORDS = ("len cap string byte new make copy append nil true false error uintptr uint int32 float32 panic print close delete complex real imag rune bool any min max clear iota unsafe runtime sync "
         "x err ret v i j ptr ref allocs s h p mem this self type func range map chan var package import go defer select interface fallthrough a b n d count pData user_data next_p __w2 m_ X Len Type").split()

# parameters with these names hide what the generated code needs
HIDDEN = "runtime unsafe nil byte string int32 float32 uint uintptr bool error rune any".split()
KEYWORDS = set("break default func interface select case defer map var chan else goto package switch const fallthrough if range type continue for import return go struct".split())


class Hdr:
    def __init__(self, rng, export):
        self.rng, self.lines, self.types, self.pool, self.export, self.used = rng, [], [], {}, export, set()
        self.complex = rng.random() < 0.4  # complex.h makes complex a macro: no name of a parameter
        self.scalars = dict(SCALARS, int=SCALARS["int"] + ["float _Complex", "double _Complex", "complex float"] * self.complex)
        self.mem, self.tt, self.ttips = [], [], {"struct": [], "function": []}

    def name(self, stem=""):
        while True:
            n = "zq" + self.rng.choice(["", "_", "X", "vk"]) + stem + self.rng.choice("abcdeFGH") + self.rng.choice(["", "_t", "Info", "2", "_x_y", "KHR"])
            if n.lower() not in self.used:
                self.used.add(n.lower())
                return n

    def go(self, n):
        return n[0].upper() + n[1:] if self.export else n

    def add(self, base, spelled, name, kind, cgo, **kw):
        self.pool.setdefault(base, []).append(spelled)
        if kind:
            self.types.append(dict({"name": name, "go": self.go(name), "cgo": cgo, "kind": kind, "complete": True, "raw": False, "ptr": False, "members": []}, **kw))

    def words(self, k, avoid=(), copies=False):
        out, seen = [], set(avoid) | ({"complex"} if self.complex else set())
        if copies and k > 1 and self.rng.random() < 0.25:
            w = self.rng.choice("abnx")
            out = self.rng.sample([w, "c" + w, "cc" + w, "ccc" + w], min(k, 4))
            seen |= set(out)
        while len(out) < k:
            w = self.rng.choice(WORDS)
            if w.lower().strip("_") not in seen:
                seen.add(w.lower().strip("_"))
                out.append(w)
        return out

    def draw(self, pos, avoid=()):
        """a base type, a shape and a tip which are supported in this position"""
        while True:
            base = self.rng.choice(["scalar", "scalar"] + [b for b in self.pool if b != "hxst"])
            cls = self.rng.choice(list(SCALARS)) if base == "scalar" else base
            if (pos, cls) not in GRID or cls in avoid:
                continue
            shape, tip, *tt = self.rng.choice(GRID[pos, cls])
            spelled = self.rng.choice(self.scalars[cls] if base == "scalar" else self.pool[cls])
            self.tt.append(tt[0] if tt else "0")
            return cls, spelled, shape, tip

    def type_tips(self, scope, name, own):
        """the type tips of the last parameters drawn, and of the result"""
        ts, self.tt = self.tt, []
        if any(t != "0" for t in ts):
            self.ttips[scope].append({"target": "^%s$" % name, "tips": ts[:own], "self": (ts + ["0"])[own]})


def declare(c, shape, name):
    if shape[0] == "%":
        return c + " " + shape[2:] + name
    s = shape.index("[")
    return c + " " + shape[:s] + name + re.sub(r"\d", lambda m: m.group(), shape[s:])


def gen(rng, k):
    h = Hdr(rng, rng.random() < 0.6)
    R = rng.random
    tips = {"struct": [], "function": [], "any": []}
    L = h.lines
    opts = {o: True for o in ("SafeStrings", "KeepAlive") if R() < 0.3}
    if R() < 0.4:
        opts["StructAccessors"] = True
    # types without members
    for _ in range(rng.randint(1, 2)):
        n = h.name("Al"); L.append("typedef %s %s;" % (rng.choice(h.scalars["int"]), n)); h.add("zqAl", n, n, "other", "")
        n = "hx" + n[2:]; L.append("typedef %s %s;" % (rng.choice(["float", "int", "long"]), n)); h.add("hxal", n, n, "", "")
        n = h.name("En"); t = rng.choice(["", n, n + "_e"])
        L.append("typedef enum %s { %s_A%s, %s_B } %s;" % (t, n, rng.choice(["", " = 3", " = -1"]), n, n)); h.add("zqEn", n, n, "other", "")
        n = h.name("Et"); L.append("enum %s { %s_A, %s_B = 5 };" % (n, n, n)); h.add("enum zqEt", "enum " + n, n, "other", "")
        n = h.name("Un"); t = rng.choice(["", n, n + "_u"])
        L.append("typedef union %s { char b[8]; double d; %s } %s;" % (t, rng.choice(["", "int i;", "void *p;"]), n)); h.add("zqUn", n, n, "union", n)
        n = h.name("Ha"); L.append("typedef struct %s_T *%s;" % (n, n)); h.add("zqHa", n, n, "struct", n, complete=False, ptr=True)
        n = h.name("Op"); L.append("typedef struct %s %s;" % (rng.choice([n, n + "_T"]), n)); h.add("zqOp", n, n, "struct", n, complete=False)
        n = h.name("Pi"); L.append("typedef %s *%s;" % (rng.choice(["int", "double", "short"]), n)); h.add("zqPi", n, n, "other", "")
        n = h.name("Ar"); L.append("typedef %s %s[%d];" % (rng.choice(["int", "double", "short"]), n, rng.randint(1, 5))); h.add("zqAr", n, n, "other", "")
    n = h.name("Ot"); L.append("struct %s;" % n); h.add("struct zqOt", "struct " + n, n, "", "")
    h.types.append({"name": n, "go": h.go(n), "cgo": "struct_" + n, "kind": "struct", "complete": False, "raw": False, "ptr": False, "members": []})

    if R() < 0.5 or opts.get("StructAccessors"):
        L.append("typedef struct hxSt { int a; double b; } hxSt; typedef struct hxOp hxOp; typedef union hxUn_u { int a; } hxUn; enum hxEt { HX_A };")
        h.pool["hxst"] = ["hxSt %s", "hxSt *%s", "hxOp *%s", "hxUn %s", "enum hxEt %s", "struct hxSt %s[2]", "hxOp **%s"]

    def callback():
        cf = R() < 0.3
        n = h.name("Cf" if cf else "Cb")
        ps, ts = [], []
        for w in h.words(rng.choice([0, 1, 2, 3, 4])):
            cls, c, s, t = h.draw("cbparam", ("zqCb", "zqCf"))
            ps.append(declare(c, s, w if R() < 0.93 else "")), ts.append(t)
        res, rt = "void", "0"
        if R() < 0.7:
            cls, c, s, rt = h.draw("cbresult", ("zqCb", "zqCf"))
            res = c + s[2:]
        h.type_tips("function", n, len(ts))
        L.append("typedef %s %s(%s);" % (res, n if cf else "(*%s)" % n, ", ".join(ps) or "void"))
        if any(t != "0" for t in ts + [rt]):
            tips["function"].append({"target": "^%s$" % n, "tips": ts, "self": rt})
        h.add("zqCf" if cf else "zqCb", n, n, "cb", n, ptr=not cf)

    def struct():
        form = rng.choice(["tag", "td", "tdtag", "tdtag"])
        acc = bool(opts.get("StructAccessors"))
        raw = R() < (0.5 if acc else 0.25)
        n = h.name("Rw" if raw else "St")
        ms, ts, desc = [], [], []
        for w in h.words(rng.choice([1, 2, 3, 4, 5]), ("ref",) if h.export else ()):  # the methods are Ref, Free ..
            while True:
                del h.tt[len(ms):]
                cls, c, s, t = h.draw("member")
                if cls == "const char" and "*" not in s:  # cgo cannot pass the struct by value then
                    continue
                if raw and opts.get("StructAccessors") and cls in ("zqSt", "struct zqSg") and ("**" in s or t != "0"):
                    continue
                break
            if raw and R() < 0.1:
                s, h.tt[len(ms):] = "f", ["0"]
                ms.append("int (*%s)(int a, char *b);" % w), ts.append("0")
            elif h.pool.get("hxst") and R() < (0.25 if raw and acc else 0.08):  # of a type that is not accepted
                s, h.tt[len(ms):] = "f", ["0"]
                ms.append(rng.choice(h.pool["hxst"]) % w + ";"), ts.append(t)
            else:
                ms.append(declare(c, s, w) + ";"), ts.append(t)
            desc.append({"name": h.go("_" + w if w in KEYWORDS else w), "skip": s == "f" or cls == "zqCf" or (cls == "zqCb" and "*" in s)})
        h.type_tips("struct", n, len(ts))
        body = "{ %s }" % " ".join(ms)
        if form == "tag":
            L.append("struct %s %s;" % (n, body)); spelled, cgo = "struct " + n, "struct_" + n
        else:
            L.append("typedef struct %s %s %s;" % ({"td": "", "tdtag": rng.choice([n, n + "_s"])}[form], body, n)); spelled, cgo = n, n
        if raw:
            h.mem.append({"target": "^%s$" % rng.choice([n, cgo]), "self": "raw"})
        if any(t != "0" for t in ts):
            tips["struct"].append({"target": "^%s$" % n, "tips": ts})
        h.add("zqRw" if raw else "struct zqSg" if form == "tag" else "zqSt", spelled, n, "struct", cgo, raw=raw, members=desc)

    for f in rng.sample([callback, struct] * 4, rng.randint(3, 7)):
        f()
    nf = 0
    for _ in range(rng.randint(3, 9)):
        n = h.name("fn")
        ps, ts = [], []
        for w in h.words(rng.choice([0, 1, 2, 2, 3, 4]), HIDDEN, True):
            cls, c, s, t = h.draw("param")
            if not ps and s == "%s*" and cls in ("zqSt", "struct zqSg", "zqRw", "zqOp", "struct zqOt") and R() < 0.5:
                t = "inst"
            ps.append(declare(c, s, w if R() < 0.93 else "")), ts.append(t)
        res, rt = "void", "0"
        if R() < 0.7:
            cls, c, s, rt = h.draw("result")
            res = c + s[2:]
        h.type_tips("function", n, len(ts))
        nf += bool(ps or res != "void")
        L.append("%s %s(%s);" % (res, "*" * 0 + n, ", ".join(ps) or "void"))
        if any(t != "0" for t in ts + [rt]):
            tips["function"].append({"target": "^%s$" % n, "tips": ts, "self": rt})
    for j in range(rng.randint(0, 4)):
        L.append("#define ZQ_M%d %s" % (j, rng.choice(["7", "-3", "'x'", "1.5", "(1 << 3)", "0xffu", "ZQ_M%d + 1" % max(0, j - 1) if j else "9"])))
    G = {"PackageName": "foo", "Includes": ["foo.h"]}
    if opts:
        G["Options"] = opts
    if R() < 0.3:
        G["PackageDescription"] = "Package foo does it."
    T = {"ConstCharIsString": True, "Rules": {"global": [{"action": "accept", "from": "^(?i)zq"}] + [{"transform": "export"}] * h.export}}
    T["PtrTips"] = {kk: v for kk, v in tips.items() if v}
    T["TypeTips"] = {kk: v for kk, v in h.ttips.items() if v}
    if h.mem:
        T["MemTips"] = h.mem
    P = {"SourcesPaths": ["foo.h"]}
    return {"header": "#ifndef F\n#define F\n#include <stdint.h>\n#include <stddef.h>\n%s%s\n#endif\n" % ("#include <complex.h>\n" if h.complex else "", "\n".join(L)), "types": h.types,
            "cfg": {"GENERATOR": G, "PARSER": P, "TRANSLATOR": T}, "fn": nf, "accessors": bool(opts.get("StructAccessors"))}
