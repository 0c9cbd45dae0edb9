"""C09: the outcome of a run - exit status and the set of files written."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import goread
from vlib import *

FEATS = {
    "macro": "#define ZQ_M%d 4",
    "enum": "enum zq_e%d { ZQ_A%d = 1 };",
    "cvar": "const int zq_cv%d = 3;",
    "typedef": "typedef int zq_t%d;",
    "struct": "typedef struct zq_s%d { int a; } zq_st%d;",
    "union": "typedef union zq_u%d { int a; float b; } zq_ut%d;",
    "callback": "typedef int (*zq_cb%d)(int a);",
    "fnarg": "int zq_fa%d(int a);",
    "fnstr": "void zq_fs%d(const char *s);",
    "fnvoid": "void zq_fv%d(void);",
    "fnret": "int zq_fr%d(void);",
}
ALLF = list(FEATS)
BADYAML = ["GENERATOR: [", "GENERATOR: 5\n", "GENERATOR:\n  Includes: {a: [\n", "{\n", "PARSER:\n  SourcesPaths: {x: 1}\nGENERATOR:\n  PackageName: foo\n",
           "GENERATOR:\n\tPackageName: foo\n", "TRANSLATOR:\n  Rules: 3\nGENERATOR:\n  PackageName: foo\n"]
BADRX = ["(zq", "zq)", "[z", "*x", "a**", "b(", "(?P<", "[z-", "x{2,1}", "\\8"]


def bad_translator(rng):
    """One invalid regexp somewhere among valid ones."""
    bad, good = rng.choice(BADRX), ["^zqnone", "qq$", "a+b"]
    kind = rng.choice(["Rules", "Rules", "PtrTips", "TypeTips", "MemTips", "Validations", "load"])
    n, at = rng.choice([(1, 0), (2, 0), (2, 1), (3, 1), (3, 2)])
    rxs = [bad if i == at else rng.choice(good) for i in range(n)]
    if kind == "load":
        return {"Rules": {rng.choice(["global", "const", "type", "private"]): [{"load": "snakecase"}] * at + [{"load": rng.choice(["nosuchrule", "snake", "doc"])}]}}
    if kind == "Rules":
        t = rng.choice(["global", "post-global", "const", "type", "function", "public", "private"])
        acts = [rng.choice(["accept", "ignore", "replace", "doc", ""]) for _ in rxs]
        out = {"Rules": {t: [dict({"from": x, "to": "y"}, **({"action": a} if a else {"transform": "lower"})) for x, a in zip(rxs, acts)]}}
        for x in out["Rules"][t]:
            if "transform" in x:
                del x["to"]
        return out
    if kind in ("PtrTips", "TypeTips"):
        scope = rng.choice(["any", "function", "struct", "type", "enum"] if kind == "TypeTips" else ["any", "function", "struct", "type"])
        val = "ref" if kind == "PtrTips" else "plain"
        form = rng.choice([{"default": val}, {"self": val}, {"tips": [val]}])
        out = {kind: {scope: [dict({"target": x}, **form) for x in rxs]}}
        if rng.random() < 0.3:
            out[kind].setdefault("any", []).insert(0, {"target": "^zqnone$", "default": val})
        return out
    if kind == "MemTips":
        return {kind: [{"target": x, "self": "raw"} for x in rxs]}
    # (other regexp syntax)
    rxs = ["(" if x == bad else x for x in rxs]
    return {kind: [{"validatefunc": "foo", "ret": "1", "matchedfunc": x} for x in rxs]}


SYNTAX = ["int zq_broken(int a;\n", "struct { int\n", "#error no\n", "int zq_x = ;\n", "zq_unknown_t zq_y(void);\n", '#include "zq_absent.h"\n']


def gen_cfg(rng, k, good):
    c = {"yaml": True, "gen": True, "pkg": rng.choice(["foo", "foo", "zqa", "lib/foo", "a/b/zqc", "foo", "zqb"]), "src": "ok", "rx": "ok", "out": "ok",
         "feats": [f for f in ALLF if rng.random() < rng.choice([0.15, 0.4])], "doc": rng.random() < 0.3, "bad": 0,
         "form": rng.choice(["plain", "two", "dir", "incl"]), "tail": rng.random() < 0.5}
    if not good:
        w = rng.choice(["yaml", "gen", "pkg", "src", "src", "src", "rx", "rx", "rx", "rx", "out", "file", "file"])
        if w in ("yaml", "gen"):
            c[w] = False
        elif w == "pkg":
            c["pkg"] = ""
        elif w == "src":
            c["src"] = rng.choice(["missing", "syntax", "none", "noparser", "missing2", "arch"])
        elif w == "rx":
            c["rx"], c["badtr"] = "bad", bad_translator(rng)
        elif w == "file":  # one file of the package can't be written, if it is to be
            c["out"] = rng.choice(["doc.go", "const.go", "types.go", "main", "cgo_helpers.go", "cgo_helpers.h", "cgo_helpers.c"])
            c["pkg"] = "only%d/foo" % k
        else:
            c["out"] = "blocked"
        c["bad"] = rng.randrange(100)
    return c


def gen(rng, k):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    allgood = rng.random() < 0.5
    cfgs, args = {}, []
    cnt = 0

    def newcfg(good=None):
        nonlocal cnt
        cnt += 1
        name = "c%d" % cnt
        cfgs[name] = gen_cfg(rng, cnt, (rng.random() < 0.6) if good is None else good)
        return name
    for j in range(n):
        kind = rng.choice(["file", "file", "dir", "dir", "missing"] if not allgood else ["file", "dir"])
        if kind == "missing":
            args.append({"kind": "missing", "path": rng.choice(["nothere%d" % j, "nothere%d.yml" % j, "no/such%d" % j]), "cfg": "", "present": {"none": ""}})
        elif kind == "file":
            prev = [a for a in args if a["kind"] == "file"]
            if prev and rng.random() < 0.1:
                args.append(dict(prev[0]))
                continue
            args.append({"kind": "file", "path": "f%d/%s" % (j, rng.choice(["my.yml", "conf.yaml", "c-for-go.txt", "x"])), "cfg": newcfg(True if allgood else None), "present": {"none": ""}})
        else:
            base = rng.choice(["lib%d", "c-for-go%d", "d.%d"]) % j
            path = rng.choice([base, "sub/" + base])
            pres = {"none": ""}
            cands = ["c-for-go.yaml", "c-for-go.yml", base + ".yaml", base + ".yml"]
            decoys = ["c-for-go.json", base, base + ".yaml.bak", "foo.yml", "config.yml", ".yml", ".yaml"]
            for c in cands:
                r = rng.random()
                if r < (0.45 if not allgood else 0.6):
                    pres[c] = newcfg(True if allgood else None)
                elif r < 0.6:
                    pres[c] = ""
            if allgood and not any(pres.values()):
                pres[rng.choice(cands)] = newcfg(True)
            for c in decoys:
                if rng.random() < 0.2:
                    pres[c] = newcfg(True)
            args.append({"kind": "dir", "path": path, "cfg": "", "present": pres, "slash": rng.random() < 0.3})
    if rng.random() < 0.03:
        args, cfgs = [], {"c1": gen_cfg(rng, 1, True)}
    if not cfgs:
        cfgs = {"c1": gen_cfg(rng, 1, True)}
    # a directory that cannot be made concerns everybody who writes below it
    for c in [c for c in cfgs.values() if c["out"] == "blocked"]:
        c["pkg"] = "blocked%d/foo" % rng.randrange(100)
    nocgo = rng.random() < 0.25
    for c in cfgs.values():
        if nocgo and c["out"] == "cgo_helpers.go":
            c["out"] = "const.go"
    return {"args": args, "cfgs": cfgs, "nocgo": nocgo, "outdir": rng.choice(["out", "out", "o/p", ""]),
            "fancy": rng.random() < 0.08, "debug": rng.random() < 0.1, "maxmem": rng.random() < 0.1}


def render(case):
    files, mk = {}, []
    where = {}
    for a in case["args"]:
        if a["kind"] == "file":
            where[a["cfg"]] = a["path"]
        elif a["kind"] == "dir":
            mk.append(a["path"])
            for c, n in a["present"].items():
                if c == "none":
                    continue
                if n:
                    where[n] = a["path"] + "/" + c
                else:
                    mk.append(a["path"] + "/" + c)
    blocked, stuck = [], []
    for n, c in case["cfgs"].items():
        if n not in where:
            continue
        d = os.path.dirname(where[n])
        i = int(n[1:])
        h = "zqh%d.h" % i
        text = "".join(FEATS[f].replace("%d", str(i)) + "\n" for f in c["feats"])
        srcs = [h]
        form = c["form"]
        if form == "two":
            files["%s/zqg%d.h" % (d, i)] = "int other%d(int x);\n" % i
            srcs = ["zqg%d.h" % i, h]
        elif form == "dir":
            mk.append("%s/zqd%d" % (d, i))
            srcs = ["zqd%d" % i, h]
        elif form == "incl":
            files["%s/zqi%d.h" % (d, i)] = text
            text = '#include "zqi%d.h"\n' % i
        if c["src"] == "syntax":
            syn = SYNTAX[c["bad"] % len(SYNTAX)]
            # (a missing include before an enum makes the C front end, a dependency, loop forever)
            text = text + syn if c["tail"] or "include" in syn else syn + text
        files["%s/%s" % (d, h)] = text
        gone = ("/no/such/zqnot%d.h" if c["bad"] % 3 == 0 else "zqnot%d.h") % i
        if c["src"] == "missing":
            srcs = [gone]
        elif c["src"] == "missing2":
            srcs = srcs + [gone] if c["tail"] else [gone] + srcs
        y = {"GENERATOR": {"PackageName": c["pkg"]}, "PARSER": {"SourcesPaths": srcs},
             "TRANSLATOR": {"Rules": {"global": [{"action": "accept", "from": "(?i)zq"}]}}}
        if c["src"] == "none":
            del y["PARSER"]["SourcesPaths"]
        elif c["src"] == "noparser":
            del y["PARSER"]
        elif c["src"] == "arch":
            y["PARSER"]["Arch"] = ["x86", "AMD64", "pdp11"][c["bad"] % 3]
        if c["pkg"] == "" and c["tail"]:
            del y["GENERATOR"]["PackageName"]
            y["GENERATOR"]["PackageDescription"] = "x"
        if not c["gen"]:
            del y["GENERATOR"]
        if c["doc"] and c["gen"]:
            y["GENERATOR"]["PackageDescription" if c["tail"] else "PackageLicense"] = "some text"
        if c["rx"] == "bad":
            bad = c["badtr"]
            for k, v in bad.items():
                if k == "Rules":
                    for t, rs in v.items():
                        y["TRANSLATOR"]["Rules"].setdefault(t, []).extend(rs)
                else:
                    y["TRANSLATOR"][k] = v
        files[where[n]] = BADYAML[c["bad"] % len(BADYAML)] if not c["yaml"] else json.dumps(y, indent=1)
        if c["out"] == "blocked":
            blocked.append((case["outdir"] + "/" if case["outdir"] else "") + (c["pkg"].split("/")[0] if c["bad"] % 2 else c["pkg"]))
        elif c["out"] != "ok":
            p = (case["outdir"] + "/" if case["outdir"] else "") + c["pkg"] + "/" + ("foo.go" if c["out"] == "main" else c["out"])
            if c["bad"] % 2:
                mk.append(p)
            else:
                stuck.append(p)
    return files, mk, blocked, stuck


def observe(chk, cases):
    def go(case):
        d = chk.newdir()
        files, mk, blocked, stuck = render(case)
        for m in mk:
            os.makedirs(os.path.join(d, m), exist_ok=True)
        chk.write_files(d, files)
        for b in blocked:
            p = os.path.join(d, b)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.isdir(p):
                open(p, "w").close()
        for p in stuck:  # a link to nowhere
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            os.symlink("nowhere/file", os.path.join(d, p))
        before = snapshot(d)
        args = ["-fancy=%s" % ("true" if case["fancy"] else "false")]
        if case["outdir"]:
            args += ["-out", case["outdir"]]
        if case["nocgo"]:
            args.append("-nocgo")
        if case["debug"]:
            args.append("-debug")
        if case["maxmem"]:
            args += ["-maxmem", "0x3fffffff"]
        args.append("-nostamp")
        r = chk.cli(d, args + [a["path"] + ("/" if a.get("slash") else "") for a in case["args"]], imports=len(case["args"]) == 1)
        after = snapshot(d)
        fs = []
        for p, h in after.items():
            if before.get(p) == h:
                continue
            pkg, hasc = "", False
            if p.endswith(".go"):
                with open(os.path.join(d, p)) as f:
                    txt = f.read()
                pkg, hasc = goread.package_of(txt), goread.imports_c(txt)
            fs.append({"path": p, "pkg": pkg, "hasC": hasc})
        for p in before:
            if p not in after:
                fs.append({"path": "-" + p, "pkg": "", "hasC": False})
        shutil.rmtree(d, ignore_errors=True)
        o = case["outdir"] + "/" if case["outdir"] else ""
        keys = ("kind", "path", "cfg", "present")
        ck = ("yaml", "gen", "pkg", "src", "rx", "out", "feats", "doc")
        return {"in": {"args": [{k: a[k] for k in keys} for a in case["args"]], "cfgs": {n: {k: c[k] for k in ck} for n, c in case["cfgs"].items()},
                       "nocgo": case["nocgo"], "out": o},
                "obs": {"code": "hang" if r.timeout else "success" if r.rc == 0 else "failure", "rc": r.rc, "files": sorted(fs, key=lambda f: f["path"]), "err": r.err[-300:]}}
    return chk.pmap(go, cases)


def snapshot(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            if os.path.islink(p):
                continue
            st = os.stat(p)
            out[os.path.relpath(p, d)] = (st.st_mtime_ns, st.st_size)
    return out


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCPipeline")
    batch_check(chk, "ConfPipeline", gen, observe, 2800 if chk.tier == "quick" else 20000, batch=2800, label="run")


if __name__ == "__main__":
    main(main_, "C09")
