"""C11: where sources and includes are found, and which macros are predefined."""
import fractions, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

DIRS = [[], ["i1"], ["i2"], ["s1"], ["s2"], ["cfgd"], ["hq"], ["hs"], ["pc1"], ["pc2"], ["sub"], ["sub", "in"]]
NAMES = [["a.h"], ["b.h"], ["c.h"], ["in", "d.h"], ["e.h"]]
BLANK = {"k": "", "id": 0, "quote": False, "name": [], "cond": "", "v": ""}


def norm(p):
    out = []
    for s in p:
        if s in ("", "."):
            continue
        if s == ".." and out and out[-1] != "..":
            out.pop()
        else:
            out.append(s)
    return out


def gen(rng, k):
    hq = [["hq"]] if rng.random() < 0.7 else []
    hs = [["hs"]] if rng.random() < 0.8 else []
    hosttype = rng.choice(["cpp", "cpp", "cc", "both", "real", "bad", "absent"])
    inc = rng.sample([["i1"], ["i2"], ["sub"], ["i1"], ["cfgd"]], rng.randint(0, 3))
    sys_ = rng.sample([["s1"], ["s2"], ["i1"]], rng.randint(0, 3))
    pkgs = []
    for j, n in enumerate(["zqp1", "zq-p2", "zqp3", "zq4-1.0"]):
        if rng.random() < 0.8:
            pkgs.append({"name": n, "dirs": rng.sample([["pc1"], ["pc2"], ["sub"], ["i2"]], rng.choice([0, 1, 1, 1, 2])), "req": [], "flags": rng.sample(["-DZQPC=1", "-pthread", "-Wall"], rng.choice([0, 0, 1, 2]))})
    for j, p in enumerate(pkgs):
        p["req"] = [q["name"] for q in rng.sample(pkgs[j + 1:], min(len(pkgs[j + 1:]), rng.choice([0, 0, 1, 2])))]
    opts = rng.sample([p["name"] for p in pkgs] + ["zqnone"], min(len(pkgs), rng.choice([0, 0, 1, 1, 2, 3])))
    if opts and rng.random() < 0.4:
        opts.insert(rng.randint(0, len(opts)), rng.choice(["--static", "--define-variable=prefix=/nowhere"]))
    cfgdir = rng.choice([["cfgd"], ["cfgd"], []])
    host = {"ok": hosttype not in ("bad", "absent"), "defs": [], "quote": hq, "sys": hs, "type": hosttype}
    dn = ["ZQD_%s" % c for c in "ABCDEF"]
    defs = []
    for n in dn + ["__linux__"]:
        if rng.random() < 0.35:
            t = "int" if n[0] == "_" else rng.choice(["int", "int", "str", "float", "empty"])
            v = {"int": lambda: rng.choice(["0", "1", "7", "-3", "9", "4294967296", "9223372036854775807"]), "str": lambda: rng.choice(["", "abc", "a b", "x/y.z", "10"]),
                 "float": lambda: rng.choice(["1.5", "0.25", "-2.5", "4.0", "0.0001220703125", "9.313225746154785e-10", "16777216.0"]), "empty": lambda: ""}[t]()
            defs.append({"n": n, "t": t, "v": v})
        if n[0] == "Z" and rng.random() < 0.35:
            host["defs"].append({"n": n, "t": "int", "v": str(rng.choice([1, 7, 9, 12]))})
    if hosttype == "real":
        host.update(defs=[], quote=[], sys=[])
    names = rng.sample(NAMES, rng.randint(2, 4))
    dirs = rng.sample(DIRS, rng.randint(3, 9))
    at = [(d, n) for d in dirs for n in names if rng.random() < 0.5]
    # most of the time every name is somewhere it is looked for
    for n in names:
        if rng.random() < 0.9:
            at.append((rng.choice([[], ["i1"], ["i2"], cfgdir, cfgdir, ["pc1"], ["hq"]]), n))
        if rng.random() < 0.7:
            at.append((rng.choice([["s1"], ["s2"], ["hs"], ["i1"]]), n))
    files, seen, ident = [], set(), 0
    for d, n in at:
        p = norm(d + n)
        if tuple(p) in seen:
            continue
        seen.add(tuple(p))
        lines = []
        ident += 1
        lines.append(dict(BLANK, k="def", id=ident))
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            ident += 1
            r = rng.random()
            if r < 0.45:
                lines.append(dict(BLANK, k="if", cond=rng.choice(["ifdef", "ifndef", "defined"]), name=rng.choice(dn), id=ident))
            else:
                lines.append(dict(BLANK, k="if", cond="if", name=rng.choice(dn + ["__linux__"]), v=rng.choice(["0", "1", "7", "9", "-3"]), id=ident))
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            nm = rng.choice(names)
            if rng.random() < 0.15:
                nm = [".."] + nm
            lines.append(dict(BLANK, k="inc", quote=rng.random() < 0.65, name=nm))
        rng.shuffle(lines)
        files.append({"path": p, "lines": lines})
    srcs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice(names)
        if rng.random() < 0.15:
            n = rng.choice([["sub"], ["i1"], ["."]]) + n
        srcs.append(n)
    rng.shuffle(files)
    # "#if N == v" wants a number (or nothing) in N
    # (a comparison of anything but a number would be an error)
    nonnum = {d["n"] for d in defs if d["t"] != "int"}
    for f in files:
        for l in f["lines"]:
            if l["cond"] == "if" and l["name"] in nonnum:
                l.update(cond="ifdef", v="")
    # 0 also equals an undefined name
    for f in files:
        for l in f["lines"]:
            if l["cond"] == "if" and (l["v"] == "0" or l["v"] == "1" and l["name"][0] == "_"):
                l["v"] = "9"
    return {"files": files, "srcs": srcs, "inc": inc, "sys": sys_, "opts": opts, "pkgs": pkgs, "cfgdir": cfgdir, "defs": defs, "host": host,
            "ccdefs": rng.random() < 0.45, "ccincl": rng.random() < 0.45, "abs": rng.random() < 0.15}


FAKE = """#!/bin/bash
case "$1 $2" in
"-dM /dev/null") cat <<'X'
%(defs)s
X
exit %(rc)d;;
"-v /dev/null") cat >&2 <<'X'
Using built-in specs.
ignoring nonexistent directory "/nowhere"
#include "..." search starts here:
%(quote)s#include <...> search starts here:
%(sys)sEnd of search list.
COMPILER_PATH=/usr/lib
X
exit 0;;
esac
exec %(real)s "$@"
"""


def observe(chk, cases):
    def go(case):
        d = chk.newdir()
        fs = {}
        for j, f in enumerate(case["files"]):
            out = ["#ifndef GRD_%d" % j, "#define GRD_%d" % j]
            for l in f["lines"]:
                df = "#define ZQ_I%d %d" % (l["id"], l["id"])
                if l["k"] == "def":
                    out.append(df)
                elif l["k"] == "inc":
                    n = "/".join(l["name"])
                    out.append('#include "%s"' % n if l["quote"] else "#include <%s>" % n)
                elif l["cond"] == "if":
                    out += ["#if %s == %s" % (l["name"], l["v"]), df, "#endif"]
                elif l["cond"] == "defined":
                    out += ["#if defined(%s)" % l["name"], df, "#endif"]
                else:
                    out += ["#%s %s" % (l["cond"], l["name"]), df, "#endif"]
            fs["/".join(f["path"])] = "\n".join(out) + "\n#endif\n"
        h = case["host"]
        fake = {"defs": "\n".join("#define %s %s" % (x["n"], x["v"]) for x in h["defs"]), "rc": 1 if h["type"] == "bad" else 0,
                "quote": "".join(" %s\n" % os.path.join(d, *p) for p in h["quote"]), "sys": "".join(" %s\n" % os.path.join(d, *p) for p in h["sys"]), "real": "gcc"}
        fs["bin/fakecpp"] = FAKE % fake
        fs["bin/other"] = FAKE % dict(fake, defs="#define ZQD_A 1000\n#define ZQD_Z 5", quote="", sys="")
        for p in case["pkgs"]:
            flags = ["-I${incdir}/" + "/".join(x) for x in p["dirs"]]
            for k, fl in enumerate(p["flags"]):
                flags.insert(k * 2 % (len(flags) + 1), fl)
            fs["%s/%s.pc" % ("pcfiles" if len(p["name"]) < 5 else "pcmore", p["name"])] = "prefix=%s\nincdir=${prefix}\n\nName: %s\nDescription: x\nVersion: 1.0\n%sCflags: %s\n" % (
                d, p["name"], "Requires: %s\n" % ", ".join(q + (" >= 0.5" if len(q) == 4 else "") for q in p["req"]) if p["req"] else "", " ".join(flags))
        exist = {"/".join(f["path"]) for f in case["files"]}
        srcs = ["/".join(s) for s in case["srcs"]]
        if case["abs"]:
            srcs = [os.path.join(d, s) if s in exist else s for s in srcs]
        P = {"SourcesPaths": srcs}
        if case["inc"]:
            P["IncludePaths"] = ["/".join(p) for p in case["inc"]]
        if case["sys"]:
            P["SysIncludePaths"] = ["/".join(p) for p in case["sys"]]
        if case["defs"]:
            conv = {"int": int, "str": str, "float": float, "empty": lambda v: {}}
            P["Defines"] = {x["n"]: conv[x["t"]](x["v"]) for x in case["defs"]}
        G = {"PackageName": "foo"}
        if case["opts"]:
            G["PkgConfigOpts"] = case["opts"]
        y = {"GENERATOR": G, "PARSER": P, "TRANSLATOR": {"Rules": {"global": [{"action": "accept", "from": "^ZQ"}]}}}
        cfg = "/".join(case["cfgdir"] + ["foo.yml"])
        fs[cfg] = json.dumps(y, indent=1)
        chk.write_files(d, fs)
        os.chmod(os.path.join(d, "bin/fakecpp"), 0o755)
        os.chmod(os.path.join(d, "bin/other"), 0o755)
        for x in DIRS:
            os.makedirs(os.path.join(d, *x), exist_ok=True)
        env = go_env(GO111MODULE="off", GOFLAGS="", GOPATH=os.path.join(chk.scratch, "gopath"), GOGC="400", GOMAXPROCS="3",
                     PKG_CONFIG_PATH=os.path.join(d, "pcfiles") + ":" + os.path.join(d, "pcmore"))
        t = h["type"]
        fk, ot = os.path.join(d, "bin/fakecpp"), os.path.join(d, "bin/other")
        if t in ("cpp", "bad"):
            env["CPP"] = fk
        elif t == "cc":
            env["CC"] = fk
        elif t == "both":
            env["CPP"], env["CC"] = fk, ot
        elif t == "absent":
            env["CPP"] = os.path.join(d, "bin/nosuch")
        args = ["-fancy=false", "-nostamp"] + (["-ccdefs"] if case["ccdefs"] else []) + (["-ccincl"] if case["ccincl"] else [])
        r = chk.cli(d, args + ["-out", "out", cfg], env=env)
        return d, r
    res = chk.pmap(go, cases)
    ok = [i for i, (d, r) in enumerate(res) if r.rc == 0]
    reps = dict(zip(ok, chk.inspect([os.path.join(res[i][0], "out", "foo") for i in ok])))
    obs = []
    for i, (case, (d, r)) in enumerate(zip(cases, res)):
        ids, consts = [], []
        if r.rc == 0:
            for c in reps[i]["consts"]:
                if c["name"].startswith("ZQ_I"):
                    ids.append(int(c["value"]) if c["name"] == "ZQ_I" + c["value"] else -1)
                else:
                    t = {"string": "str", "int": "int", "float": "float"}.get(c["vkind"].lower(), c["vkind"])
                    v = c["value"]
                    if t == "str" and v.startswith('"'):
                        v = json.loads(v)
                    if t == "float":
                        v = repr(float(fractions.Fraction(v)))
                    consts.append({"n": c["name"], "t": t, "v": v})
        shutil.rmtree(d, ignore_errors=True)
        x = {k: case[k] for k in ("files", "srcs", "inc", "sys", "opts", "pkgs", "cfgdir", "defs", "host", "ccdefs", "ccincl")}
        obs.append({"in": x, "obs": {"code": "hang" if r.timeout else "success" if r.rc == 0 else "failure", "ids": ids, "consts": consts, "err": r.err[-300:]}})
    return obs


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCLookup")
    batch_check(chk, "ConfLookup", gen, observe, 1200 if chk.tier == "quick" else 12000, batch=1200, label="run")


if __name__ == "__main__":
    main(main_, "C11")
