"""C08: what is generated depends on nothing but configuration and headers."""
import hashlib, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import anycase
from vlib import *

def fewer_lines(rng, text):
    """Some declarations that stood on lines of their own share one."""
    if "//" in text or "\\\n" in text:
        return text
    out = []
    for ln in text.split("\n"):
        if out and ln and not (ln + out[-1]).lstrip().startswith("#") and "#" not in ln + out[-1] and rng.random() < 0.7:
            out[-1] += " " + ln
        else:
            out.append(ln)
    return "\n".join(out)


PKGS = ["foo", "sub/bar", "foo"]


def gen(rng, k):
    n = rng.choice([1, 2, 2, 3])
    cfgs = [anycase.options(rng, anycase.any_case(rng)) for _ in range(n)]
    for x in cfgs:
        if rng.random() < 0.4:
            x["files"] = {f: fewer_lines(rng, s) for f, s in x["files"].items()}
    pk = [rng.choice(PKGS) for _ in range(n)]
    # by file name, predefined macros stand among the files: before relative paths, after absolute ones
    defs = any(x["cfg"] and x["cfg"].get("PARSER", {}).get("Defines") for x in cfgs)
    steps = []
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        if steps and r < 0.2:
            name = "out/%s/%s" % (rng.choice(pk), rng.choice(["const.go", "types.go", "cgo_helpers.h", "cgo_helpers.go", "foo.go", "bar.go", "mine.go", "doc.go"]))
            if rng.random() < 0.6:
                steps.append({"do": "write", "path": name, "content": "u" + "x" * rng.choice([0, 10, 200000])})
            else:
                steps.append({"do": "remove", "path": name})
        else:
            v = rng.choice(["", "", "", "", "-nocgo", "-maxmem=0x1fffffff", "-ccdefs"])
            steps.append({"do": "run", "args": [[str(rng.randrange(n)), v] for _ in range(rng.randint(1, 3))],
                          "procs": rng.choice([1, 2, 8]), "gogc": rng.choice(["off", "20", "400"]), "stamp": rng.random() < 0.3, "tz": rng.choice(["UTC", "Asia/Tokyo"]),
                          "debug": rng.random() < 0.2, "fancy": rng.random() < 0.1, "abs": not defs and rng.random() < 0.3, "mix": rng.choice([0, rng.randrange(1, 1 << 30)])})
    steps.append(dict(next(s for s in steps if s["do"] == "run")))
    return {"cfgs": cfgs, "pk": pk, "steps": steps, "imports": k % 4 == 0}


def digest(p):
    t = open(p).read()
    if t.startswith("ux") or t == "u":
        return t[:2] + str(len(t))
    t = re.sub(r"automatically been generated[^\n]*\n", "automatically been generated\n", t)
    return hashlib.sha1(t.encode()).hexdigest()[:12]


def look(d):
    out = []
    for r, _, fs in os.walk(os.path.join(d, "out")):
        for f in fs:
            p = os.path.join(r, f)
            out.append([os.path.relpath(p, d), digest(p)])
    return sorted(out)


def place(chk, d, c, mix=0):
    for j, x in enumerate(c["cfgs"]):
        fs = {os.path.join("k%d" % j, f): t for f, t in x["files"].items()}
        fs["k%d/foo.yml" % j] = anycase.config_text(x, c["pk"][j], random.Random(mix) if mix else None)
        chk.write_files(d, fs)


def observe(chk, cases):
    def go(c):
        ds, err, obs, memo = [], "", [], []
        keys = sorted({tuple(a) for s in c["steps"] if s["do"] == "run" for a in s["args"]})
        for key in keys:  # alone, in a place of its own
            d = chk.newdir()
            ds.append(d)
            place(chk, d, c)
            r = chk.cli(d, ["-fancy=false", "-nostamp", "-out", "out"] + ([key[1]] if key[1] else []) + ["k%s/foo.yml" % key[0]], imports=c["imports"])
            if r.rc or r.timeout:
                err = "c-for-go %s: %s" % (c["cfgs"][int(key[0])]["kind"], r.err[-300:])
            memo.append({"arg": list(key), "files": look(d)})
        d = os.path.join(chk.newdir(), "else", "where")
        os.makedirs(d)
        ds.append(d)
        for s in c["steps"]:
            if s["do"] == "write":
                chk.write_files(d, {s["path"]: s["content"]})
            elif s["do"] == "remove":
                p = os.path.join(d, s["path"])
                if os.path.exists(p):
                    os.remove(p)
            else:
                place(chk, d, c, s["mix"])
                v = s["args"][0][1]
                args = ["-out", "out"] + ([v] if v else []) + ([] if s["fancy"] else ["-fancy=false"]) + ([] if s["stamp"] else ["-nostamp"]) + (["-debug"] if s["debug"] else [])
                env = go_env(GO111MODULE="off", GOWORK="" if c["imports"] else "off", GOFLAGS="", GOPATH=os.path.join(chk.scratch, "gopath"), GOGC=s["gogc"], GOMAXPROCS=str(s["procs"]), TZ=s["tz"])
                r = chk.cli(d, args + [os.path.join(d if s["abs"] else "", "k%s/foo.yml" % a[0]) for a in s["args"]], env=env)
                if (r.rc or r.timeout) and not err:
                    err = "c-for-go: rc %s %s" % (r.rc, r.err[-300:])
            obs.append(look(d))
        for d in ds:
            shutil.rmtree(d, ignore_errors=True)
        st = [{"do": "run", "args": s["args"]} if s["do"] == "run" else {"do": s["do"], "path": s["path"], "content": s["content"][:2] + str(len(s["content"])) if s["do"] == "write" else ""} for s in c["steps"]]
        return {"memo": memo, "steps": st, "obs": obs, "err": err}
    for c in cases:
        for s in c["steps"]:  # one command line, one variant
            if s["do"] == "run":
                s["args"] = [[a[0], s["args"][0][1]] for a in s["args"]]
    return chk.pmap(go, cases)


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCRuns")
        chk.model("MCHelpers")
        chk.model("MCHelpers", cfg="MCHelpersL.cfg")
    batch_check(chk, "ConfRuns", gen, observe, 160 if chk.tier == "quick" else 1600, batch=80, label="history")


if __name__ == "__main__":
    main(main_, "C08")
