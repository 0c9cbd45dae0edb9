"""C14: Go functions that are called from C."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import callgen, cbgen
from vlib import *


def build_pkg(chk, c, d):
    chk.write_files(d, {"foo.yml": json.dumps(c["cfg"]), "foo.h": c["header"]})
    r = chk.cli(d, ["-nostamp", "-out", "out", "foo.yml"], imports=True)
    if r.rc or r.timeout:
        return "c-for-go: " + r.err[-300:]
    chk.write_files(os.path.join(d, "out"), {"go.mod": "module foo\n\ngo 1.23\n", "foo/foo.h": c["header"], "foo/zqrt.h": cbgen.RTH, "foo/zqrt.c": c["c"],
                                              "foo/zqrt.go": c["go"], "main.go": callgen.MAIN})
    b = run(["go", "build", "-o", "prog", "."], cwd=os.path.join(d, "out"), env=go_env(CGO_CFLAGS="-O0 -w"), timeout=300)
    return "" if b.rc == 0 else "build: " + b.err[:600]


def observe(chk, cases):
    def one(c):
        d = chk.newdir()
        err = build_pkg(chk, c, d)
        runs, obs, hung = [], [], False
        if not err:
            for h in range(len(c["hist"])):
                for env in ({}, {"ZQGC": "1", "MALLOC_PERTURB_": "165"}):
                    if hung:
                        break
                    r = chk.prog(d, [str(h)], timeout=60, **env)
                    hung = r.timeout
                    try:
                        log = json.loads(r.out)["log"]
                    except ValueError:
                        log = ["died: rc %s %s" % (r.rc, (r.err.splitlines() or [""])[0][:200])]
                    runs.append(h + 1)
                    obs.append(log)
        if not chk.args.keep:
            shutil.rmtree(d, ignore_errors=True)
        return {"model": c["model"], "hist": c["hist"], "runs": runs, "obs": obs, "err": err}
    return chk.pmap(one, cases)


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCCallbacks", cfg="MCCallbacks%s.cfg" % ("T" if chk.tier == "thorough" else ""))
    batch_check(chk, "ConfCallbacks", lambda rng, k: cbgen.gen_package(rng), observe, 48 if chk.tier == "quick" else 400, batch=16, label="package")


if __name__ == "__main__":
    main(main_, "C14")
