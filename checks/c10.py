"""C10: the top of every generated file: license, marker, package, cgo preamble."""
import datetime, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

WORDS = ["Alpha", "beta", "of the", "GNU", "see", "x86", "(c) 2020", "all rights", "v1.2", "package", "library;", "for C", "import"]


def text(rng, n):
    out = []
    for _ in range(rng.randint(1, n)):
        out.append(" ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 4))) if rng.random() < 0.85 else "")
    if not any(out):
        out[0] = "Text"
    return out


def gen(rng, k):
    c = {"license": text(rng, 4) if rng.random() < 0.5 else [], "description": text(rng, 3) if rng.random() < 0.5 else [],
         "pkgconfig": rng.sample(["zqlib", "--static", "zq-two-1.0"], rng.randint(0, 2)) if rng.random() < 0.4 else [],
         "groups": [], "sys": [], "inc": [], "stamp": rng.random() < 0.4, "path": rng.choice(["foo", "foo", "a/foo", "zq/b/pack", "x/y1", "go-lib/lib"])}
    c["pkg"] = c["path"].split("/")[-1]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        c["groups"].append({"name": rng.choice(["CFLAGS", "LDFLAGS", "CPPFLAGS", "CXXFLAGS", "LDFLAGS", "", "noescape"]) if rng.random() < 0.9 else "",
                            "traits": rng.sample(["linux", "darwin", "!windows", "amd64", "linux,amd64"], rng.choice([0, 0, 1, 2])),
                            "flags": rng.sample(["-I/usr/include/x", "-lm", "-L${SRCDIR}/lib", "-DX=1", "-framework", "Y", "-std=c99", "-D\"A B\""], rng.choice([0, 1, 1, 2, 3]))})
    for g in c["groups"]:
        if g["name"] == "noescape":
            g["name"] = "CFLAGS"
    c["sys"] = list(dict.fromkeys(rng.sample(["stdint.h", "stdlib.h", "stdlib.h", "sys/types.h", "zq/api.h", "string.h", "zq/stdlib.h", "xstdlib.h", "stdlib.h.in"], rng.choice([0, 0, 1, 2, 3]))))
    c["inc"] = rng.sample(["a.h", "lib/b.h", "../c.h", "stdlib.h", "cgo.h"], rng.choice([0, 0, 1, 2, 3]))
    c["feats"] = [f for f in ("macro", "typedef", "struct", "callback", "fn") if rng.random() < 0.6]
    c["nocgo"] = rng.random() < 0.2
    c["block"] = rng.random() < 0.3
    return c


SRC = {"macro": "#define ZQ_A 4", "typedef": "typedef int zq_t;", "struct": "typedef struct zq_s { int a; } zq_s;",
       "callback": "typedef int (*zq_cb)(int a);", "fn": "int zq_f(int a);"}


def squeeze(s):
    return " ".join(s.split())


def label(line, t0, t1):
    """The time of generation, if it is one, as <now>."""
    m = re.match(r"(WARNING: This file has automatically been generated on )(.*)\.$", line)
    if m:
        try:
            t = datetime.datetime.strptime(m.group(2), "%a, %d %b %Y %H:%M:%S UTC").replace(tzinfo=datetime.timezone.utc).timestamp()
            if t0 - 2 <= t <= t1 + 2:
                return m.group(1) + "<now>."
        except ValueError:
            pass
    return line


def comment_lines(c):
    if c.startswith("//"):
        return [squeeze(c[2:])]
    return [squeeze(l) for l in c[2:-2].split("\n")]


def observe(chk, cases):
    def go(case):
        d = chk.newdir()
        G = {"PackageName": case["path"]}
        for k, n in (("license", "PackageLicense"), ("description", "PackageDescription")):
            if case[k]:
                G[n] = "\n".join(case[k])
        for k, n in (("pkgconfig", "PkgConfigOpts"), ("sys", "SysIncludes"), ("inc", "Includes")):
            if case[k]:
                G[n] = case[k]
        if case["groups"]:
            G["FlagGroups"] = [{k: v for k, v in g.items() if v} if case["block"] else g for g in case["groups"]]
        y = {"GENERATOR": G, "PARSER": {"SourcesPaths": ["zq.h"]}, "TRANSLATOR": {"Rules": {"global": [{"action": "accept", "from": "(?i)zq"}]}}}
        chk.write_files(d, {"zq.h": "".join(SRC[f] + "\n" for f in case["feats"]), "foo.yml": json.dumps(y, indent=1)})
        t0 = time.time()
        r = chk.cli(d, ["-fancy=false"] + ([] if case["stamp"] else ["-nostamp"]) + (["-nocgo"] if case["nocgo"] else []) + ["-out", "out", "foo.yml"],
                    env=go_env(GO111MODULE="off", GOWORK="" if case["stamp"] else "off", GOFLAGS="", GOPATH=os.path.join(chk.scratch, "gopath"), GOGC="400", GOMAXPROCS="3",
                               PKG_CONFIG_PATH=d, TZ="UTC"))
        return d, t0, time.time(), "" if r.rc == 0 else "c-for-go failed: " + r.err[-300:]
    res = chk.pmap(go, cases)
    reps = chk.inspect([os.path.join(d, "out", c["path"]) for (d, _, _, _), c in zip(res, cases)])
    obs = []
    for case, (d, t0, t1, err), rep in zip(cases, res, reps):
        shutil.rmtree(d, ignore_errors=True)
        fs = []
        for f in rep["files"]:
            head = [label(l, t0, t1) for c in f["head"] for l in comment_lines(c) if l]
            kind = "doc" if f["name"] == "doc.go" else "plain" if case["nocgo"] and f["name"] != "cgo_helpers.go" else "go"
            if case["nocgo"] and f["name"] == "cgo_helpers.go":
                continue  # of no use without cgo; left open
            fs.append({"name": f["name"], "kind": kind, "head": head, "body": [squeeze(l) for l in f["preamble"]], "pkg": f["package"], "hasC": f["hasC"]})
        for n, txt in rep["raw"].items():
            head, body = [], []
            for l in txt.split("\n"):
                l = squeeze(l)
                if l.startswith("//") and not body:
                    if l[2:].strip():
                        head.append(label(l[2:].strip(), t0, t1))
                elif l.startswith("#"):
                    body.append(l)
                    if l.startswith("#pragma once") or l == '#include "cgo_helpers.h"':
                        break
                elif l:
                    body.append("?" + l)
            fs.append({"name": n, "kind": n[-1], "head": head, "body": body, "pkg": "", "hasC": False})
        if err:  # these configurations are all within what is supported
            fs.append({"name": err, "kind": "doc", "head": [], "body": [], "pkg": "", "hasC": False})
        x = {k: case[k] for k in ("license", "description", "pkgconfig", "groups", "sys", "inc", "stamp", "pkg")}
        for k in ("license", "description"):
            x[k] = [squeeze(l) for l in x[k]]
        obs.append({"in": x, "obs": fs} if fs else None)
    return obs


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCPreamble")
    batch_check(chk, "ConfPreamble", gen, observe, 700 if chk.tier == "quick" else 7000, batch=700, label="package")


if __name__ == "__main__":
    main(main_, "C10")
