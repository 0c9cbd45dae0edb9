"""C13: what C is given and what Go has after a call."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import callgen
from vlib import *


def build_pkg(chk, c, d):
    """c-for-go and the Go compiler; what failed, or nothing"""
    chk.write_files(d, {"foo.yml": json.dumps(c["cfg"]), "foo.h": c["header"]})
    r = chk.cli(d, ["-nostamp", "-out", "out", "foo.yml"], imports=True)
    if r.rc or r.timeout:
        return "c-for-go: " + r.err[-300:]
    chk.write_files(os.path.join(d, "out"), {"go.mod": "module foo\n\ngo 1.23\n", "foo/foo.h": c["header"], "foo/zqrt.h": callgen.RTH, "foo/zqrt.c": c["c"],
                                              "foo/zqrt.go": c["go"], "main.go": callgen.MAIN})
    b = run(["go", "build", "-o", "prog", "."], cwd=os.path.join(d, "out"), env=go_env(CGO_CFLAGS="-O0 -w"), timeout=300)
    return "" if b.rc == 0 else "build: " + b.err[:600]


def run_pkg(chk, d, n, **env):
    r = chk.prog(d, **env)
    got = {}
    for l in r.out.splitlines():
        try:
            o = json.loads(l)
        except ValueError:
            continue
        got[o["n"]] = {"log": o["log"], "after": o["after"], "ret": o["ret"]}
    last = {"log": ["died"], "after": [], "ret": "rc %s %s" % (r.rc, (r.err.splitlines() or [""])[0][:200])}
    return [got.get(k + 1, last) for k in range(n)]


def observe(chk, cases):
    def one(c):
        d = chk.newdir()
        err = build_pkg(chk, c, d)
        obs = []
        if not err:
            n = len(c["scen"])
            obs = run_pkg(chk, d, n) + run_pkg(chk, d, n, ZQGC="1", MALLOC_PERTURB_="165") + run_pkg(chk, d, n, ZQPAR="1", MALLOC_PERTURB_="90")
        if not chk.args.keep:
            shutil.rmtree(d, ignore_errors=True)
        return {"scen": c["scen"] * 3, "obs": obs, "err": err}
    return chk.pmap(one, cases)


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCCalls")
        chk.model("MCCallsPar")
    batch_check(chk, "ConfCalls", lambda rng, k: callgen.gen_package(rng), observe, 16 if chk.tier == "quick" else 240, batch=16, label="package")


if __name__ == "__main__":
    main(main_, "C13")
