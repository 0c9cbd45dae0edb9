"""C15: the generated package builds and offers the interface of every type."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import anycase, compgen
from vlib import *

FREE = ["calls", "callbacks", "wrappers"]


def gen(rng, k):
    if k % 8 == 7:
        c = anycase.any_case(rng, FREE)
        if c["cfg"]:
            c = anycase.options(rng, c)
            c["cfg"]["GENERATOR"]["Includes"] = ["foo.h"]
            c["cfg"]["GENERATOR"].pop("FlagGroups", None)
        return {"files": dict(c["files"], **{"foo.yml": anycase.config_text(c, "foo")}), "free": True, "types": [], "accessors": False}
    c = compgen.gen(rng, k)
    return {"files": {"foo.h": c["header"], "foo.yml": json.dumps(c["cfg"])}, "free": False, "types": c["types"], "accessors": c["accessors"]}


def build(d):
    b = run(["go", "build", "-gcflags=-e", "-o", os.devnull, "."], cwd=os.path.join(d, "out", "foo"), env=go_env(CGO_CFLAGS="-O0 -w"), timeout=300)
    return "" if b.rc == 0 else "build: " + re.sub(r"^# foo\n", "", b.err)[:900]


def api(rep, types):
    names = {t["name"] for t in rep["types"]}
    cbs = sorted((t for t in types if t["kind"] == "cb"), key=lambda t: -len(t["go"]))
    marks = {}

    def unmark(n, tail=""):
        """the name of the Go side of a callback, with # for the mark"""
        for t in cbs:
            low = t["go"][:1].lower() + t["go"][1:]
            m = re.fullmatch(re.escape(low) + r"([0-9A-F]{1,8})" + tail, n)
            if m and marks.setdefault(t["name"], m.group(1)) == m.group(1):
                return low + "#" + tail
        return None
    out = []
    for f in rep["funcs"]:
        r = f["recv"] or ""
        e = {"of": r, "n": f["name"], "ins": [p["type"] for p in f["params"]], "outs": f["results"]}
        if r:
            if r.lstrip("*") in names and r.lstrip("*") not in ("cgoAllocMap", "RawString") and f["file"] == "cgo_helpers.go":
                out.append(dict(e, outs=["?"]) if f["name"].startswith("Get") and len(f["results"]) == 1 else e)
        elif f["file"] == "cgo_helpers.go":
            if f["name"].startswith("New"):
                out.append(e)
            elif unmark(f["name"]):
                out.append({"of": "export", "n": unmark(f["name"]), "ins": [], "outs": []})
    for c in rep["consts"]:
        if c["file"] == "cgo_helpers.go" and c["kind"] == "var" and unmark(c["name"], "Func"):
            out.append({"of": "var", "n": unmark(c["name"], "Func"), "ins": [c["type"]], "outs": []})
        elif c["kind"] == "const" and c["name"].startswith("sizeof") and c["file"] != "cgo_helpers.go":
            out.append({"of": "const", "n": c["name"], "ins": [], "outs": []})
    for ext, of, end in ((".h", "declared", ";"), (".c", "defined", " {")):
        for l in rep["raw"].get("cgo_helpers" + ext, "").splitlines():
            m = re.match(r"[\w *]*?(\w+)_([0-9a-f]{1,8})\(.*\)" + re.escape(end) + "$", l)
            if m:
                ok = marks.get(m.group(1), "").lower() == m.group(2)
                out.append({"of": of, "n": m.group(1) + "_" + ("#" if ok else m.group(2)), "ins": [], "outs": []})
    return out


def observe(chk, cases):
    def one(c):
        d = chk.newdir()
        chk.write_files(d, c["files"])
        r = chk.cli(d, ["-nostamp", "-out", "out", "foo.yml"], imports=True)
        err = ""
        if r.rc or r.timeout:
            err = "c-for-go: " + r.err[-300:]
        else:
            chk.write_files(os.path.join(d, "out", "foo"), dict({f: t for f, t in c["files"].items() if f.endswith(".h")}, **{"go.mod": "module foo\n\ngo 1.23\n"}))
            err = build(d)
        return d, err
    res = chk.pmap(one, cases)
    reps = chk.inspect([os.path.join(d, "out", "foo") for d, _ in res])
    obs = []
    for c, (d, err), rep in zip(cases, res, reps):
        if not chk.args.keep:
            shutil.rmtree(d, ignore_errors=True)
        a = [] if c["free"] or err.startswith("c-for-go") else api(rep, c["types"])
        obs.append({"types": c["types"], "accessors": c["accessors"], "free": c["free"], "obs": {"err": err, "api": a}})
    return obs


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCSurface")
    batch_check(chk, "ConfSurface", gen, observe, 96 if chk.tier == "quick" else 1200, batch=48, label="package")


if __name__ == "__main__":
    main(main_, "C15")
