#!/usr/bin/env python3
"""mut.py ID... < edits: runs checks against copies of /repo with ad-hoc edits. Input: blocks
'FILE' newline OLD newline '=>' newline NEW newline '--'."""
import os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
ids = sys.argv[1:]
blocks = [b.strip("\n") for b in sys.stdin.read().split("\n--\n") if b.strip()]

def one(b):
    f, rest = b.split("\n", 1)
    old, new = rest.split("\n=>\n") if "\n=>\n" in rest else (rest.split("\n=>")[0], "")
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(["cp", "-a", "/repo/.", w], check=True)
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) < 1:
            return "NOT FOUND: " + old[:80]
        open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run(["go", "build", "./..."], cwd=w, capture_output=True, text=True)
        if r.returncode:
            return "NO BUILD: " + r.stderr[:300]
        out = []
        for i in ids:
            r = subprocess.run(["python3", "/verif/checks/%s.py" % i.lower()], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
            m = [l for l in r.stdout.splitlines() if "VIOLATED" in l or "ERROR" in l]
            out.append("%s rc=%d %s" % (i, r.returncode, (m or [""])[0][:260]))
        return "%s: %s\n   %s" % (f, old.strip()[:60].replace("\n", " "), "\n   ".join(out))
    finally:
        shutil.rmtree(w, ignore_errors=True)

with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, blocks):
        print(r, flush=True)
