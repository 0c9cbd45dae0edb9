"""C17: raw and opaque structs are their C objects."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import rawgen
from vlib import *

WRAP = "-extldflags=-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"


def programs(chk, cases):
    """TLC chooses what is done and says what must be seen"""
    res = chk.tlc("GenRaw", cases=[rawgen.tla_case(c) for c in cases])
    if res.violation:
        raise InfraError("GenRaw: " + res.violation + tail(res.raw))
    evs = [[[] for _ in c["progs"]] for c in cases]
    for r in sorted(res.rows, key=lambda r: (r["i"], r["p"], r["k"])):
        evs[r["i"] - 1][r["p"] - 1].append(r["ev"])
    return evs


def observe(chk, case, evs):
    d = chk.newdir()
    try:
        c, go, want = rawgen.concretize(case, evs)
        h = rawgen.header(case)
        chk.write_files(d, {"foo.yml": rawgen.config(case), "foo.h": h})
        r = chk.cli(d, ["-nostamp", "-out", "out", "foo.yml"], imports=True)
        if r.rc or r.timeout:
            return [("a package", "c-for-go: " + r.err[-300:])]
        chk.write_files(os.path.join(d, "out"), {"go.mod": "module foo\n\ngo 1.23\n", "foo/foo.h": h, "foo/zqrt.h": rawgen.RTH2, "foo/zqrt.c": c, "foo/zqrt.go": go, "main.go": rawgen.MAIN})
        b = run(["go", "build", "-ldflags", WRAP, "-o", "prog", "."], cwd=os.path.join(d, "out"), env=go_env(CGO_CFLAGS="-O0 -w"), timeout=300)
        if b.rc:
            return [("a package", "build: " + b.err[:800])]
        out = []
        for gc in ({}, {"ZQGC": "1"}):
            r = chk.prog(d, timeout=150, GOGC="50" if gc else "off", **gc)
            got = {}
            for l in r.out.splitlines():
                try:
                    o = json.loads(l)
                    got[o["n"]] = o["log"]
                except ValueError:
                    pass
            dead = "died: rc %s %s" % (r.rc, " / ".join(r.err.splitlines()[:3])[:300])
            for p, w in enumerate(want):
                for k, ex in enumerate(w):
                    out.append((ex, got.get(p * 1000 + k, dead)))
        return out
    finally:
        if not chk.args.keep:
            shutil.rmtree(d, ignore_errors=True)


def verdicts(chk, cases):
    evs = programs(chk, cases)
    res = chk.pmap(lambda ce: observe(chk, *ce), list(zip(cases, evs)))
    bad = []
    for j, (e, out) in enumerate(zip(evs, res)):
        flat = [ev for _ in range(2) for prog in e for ev in prog]
        first = next((n for n, (ex, got) in enumerate(out) if ex != got), None)
        chk.traces += 2 * len(e)
        chk.notes["operations"] = chk.notes.get("operations", 0) + len(flat)
        kinds = chk.notes.setdefault("kinds", {})
        for prog in e:
            for ev in prog:
                kinds[ev["op"]] = kinds.get(ev["op"], 0) + 1
        if first is not None:
            bad.append((j, {"operation": {k: v for k, v in flat[first].items() if k != "log"} if len(out) > 1 else "build", "expected": out[first][0], "seen": out[first][1], "gc": first >= len(flat) // 2}))
    return bad


def main_(chk):
    chk.build()
    if chk.args.replay:
        case = json.load(open(chk.args.replay))["case"]
        for _, b in verdicts(chk, [case]):
            print(json.dumps(b, indent=1)[:3000])
            chk.violation("replayed: " + json.dumps(b)[:300], {"case": case, "verdict": b})
        return
    chk.model("MCRaw", cfg="MCRaw.cfg" if chk.tier == "quick" else "MCRawT.cfg")
    n = chk.args.n or (32 if chk.tier == "quick" else 320)
    done = 0
    while done < n and chk.left() > 0 and not chk.violations:
        cases = [rawgen.gen_package(chk.rng, *((6, 60) if chk.tier == "quick" else (10, 90))) for _ in range(min(32, n - done))]
        bad = verdicts(chk, cases)
        for j, b in bad[:4]:
            again = [x for _ in range(3) for x in verdicts(chk, [cases[j]])]
            if not again:
                raise InfraError("could not be reproduced: " + json.dumps(b)[:600])
            chk.violation("package %d: %s" % (done + j, json.dumps(again[0][1])[:700]), {"case": cases[j], "verdict": again[0][1]})
        chk.sample({"header": rawgen.header(cases[0])[-700:]})
        done += len(cases)
        chk.log("%d/%d packages, %d rejected" % (done, n, len(bad)))
    chk.notes["packages"] = done


if __name__ == "__main__":
    main(main_, "C17")
