#!/usr/bin/env python3
"""Makes planted bugs: python3 seed.py FILE...  Each FILE defines SEEDS, a list of
dict(id, property, needs, breaks, edits=[(file, old, new)], demo). A seed is kept only
when it applies, builds, passes the stable tests and its demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
HEAD = """#!/bin/bash
# run with cwd = the repository, after its build
set -u
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export GO111MODULE=on GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOPROXY=off GOWORK=off
go build -buildvcs=false -o "$W/cfg" . || exit 2
cd "$W"
"""

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280, **kw)

def make(s, force=False):
    d = os.path.join(V, "seeded", s["id"])
    w = tempfile.mkdtemp(prefix="seedwt-")
    try:
        sh("cp -a %s/. %s/" % (R, w), "/")
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit of %s matches %d times: %r" % (f, t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        sh("gofmt -l .", w)
        diff = sh("git diff", w).stdout
        demo = HEAD + s["demo"]
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(demo)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = sh("gofmt -l main.go process.go parser generator translator; go vet ./... 2>&1 | grep -v '^#' | head -5; go build -buildvcs=false -o /dev/null . && go test ./translator/ 2>&1 | tail -30", w)
        r0 = sh("bash %s/demo.sh" % d, R)
        r1 = sh("bash %s/demo.sh" % d, w)
        tests = "ok" if "ok  \t" in b.stdout or "--- FAIL: TestFunctionStringReturn" in b.stdout and b.stdout.count("--- FAIL") == 1 else "TESTS? " + b.stdout
        ok = tests == "ok" and r0.returncode == 0 and r1.returncode not in (0, 2)
        if not ok:
            shutil.rmtree(d)
        return ("kept" if ok else "DROPPED") + " tests=%s clean=%d patched=%d %s %s" % (tests[:1500], r0.returncode, r1.returncode, r0.stdout[-1200:] if r0.returncode else "", r1.stdout[-600:])
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == "__main__":
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            if os.path.exists(os.path.join(V, "seeded", s["id"])) and "--force" not in sys.argv:
                continue
            print(s["id"], make(s), flush=True)
