"""C03: signatures of functions and callback types, Go types of typedefs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import typegen
from vlib import *


def config(c):
    tr = {"Rules": {"global": [{"action": "accept", "from": "^zq"}]}, "ConstCharIsString": c["opts"]["constchar"], "ConstUCharIsString": c["opts"]["constuchar"]}
    if c["ptips"]:
        tr["PtrTips"] = typegen.tips_config(c["ptips"])
    if c["ttips"]:
        tr["TypeTips"] = typegen.tips_config(c["ttips"])
    if c["mtips"]:
        tr["MemTips"] = typegen.tips_config(c["mtips"])["any"]
    return {"GENERATOR": {"PackageName": "foo", "Includes": ["foo.h"]}, "PARSER": dict({"SourcesPaths": ["foo.h"]}, **({"Arch": c["arch"]} if c.get("arch") else {})), "TRANSLATOR": tr}


def sig(f):
    return {"recv": [{"n": f["recvvar"], "t": f["recv"]}] if f["recv"] else [],
            "params": [{"n": p["name"], "t": p["type"]} for p in f["params"] or []], "results": f["results"] or []}


def observe(chk, cases):
    dirs = [chk.newdir() for _ in cases]

    def go(k):
        chk.write_files(dirs[k], {"foo.yml": typegen.with_tmap(config(cases[k]), cases[k]["opts"]["tmap"]), "foo.h": "#ifndef FOO_H\n#define FOO_H\n" + "\n".join(cases[k]["lines"]) + "\n#endif\n"})
        return chk.cli(dirs[k], ["-fancy=false", "-nostamp", "-out", "out", "foo.yml"])
    res = chk.pmap(go, range(len(cases)))
    reps = chk.inspect([os.path.join(d, "out", "foo") for d in dirs])
    out = []
    for c, r, rep, d in zip(cases, res, reps, dirs):
        shutil.rmtree(d, ignore_errors=True)
        fns = {f["name"]: sig(f) for f in rep["funcs"] or [] if f["file"] == "foo.go"}
        types = {t["name"]: t for t in rep["types"] or []}
        fns["-"] = {"recv": [], "params": [], "results": []}
        ty = {"-": "-"}
        for n, t in types.items():
            if t["kind"] == "func":
                fns[n] = {"recv": [], "params": [{"n": p["name"], "t": p["type"]} for p in t["fields"] or []], "results": t["results"] or []}
            ty[n] = t["expr"] if t["kind"] not in ("struct", "func") else t["kind"]
        out.append({"env": {a: {"k": e["k"], "acc": e["acc"], "to": e["to"], "cgo": e["cgo"], "mem": e["mem"]} for a, e in c["env"].items()}, "opts": c["opts"],
                    "fns": c["fns"], "cbs": c["cbs"], "ptips": c["ptips"], "ttips": c["ttips"], "mtips": c["mtips"], "obs": {"fns": fns, "types": ty, "err": r.err[-300:] if r.rc or r.timeout else ""}})
    return out


def probe(line, name, **par):
    f = {"name": name, "ret": typegen.ct("void"), "params": [{"name": "x0", "t": typegen.ct(**par)}]}
    return {"env": {"hxal1": {"k": "alias", "acc": False, "to": typegen.ct("int"), "cgo": "hxal1", "mem": "hxal1"}}, "opts": {"constchar": True, "constuchar": False, "long64": True, "tmap": []}, "arch": "",
            "lines": ["typedef int hxal1;", line], "fns": [f], "cbs": [], "structs": [], "ptips": [], "ttips": [], "mtips": []}


PROBES = {"array-of-arrays-of-pointers": ("a parameter declared as int *x[2][3] ends the run with a panic", probe("void zqFn(int *x0[2][3]);", "zqFn", b="int", p=1, arr=[2, 3]))}


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCTypes")
        probes(chk, "ConfTypes", observe, PROBES)
    batch_check(chk, "ConfTypes", lambda rng, k: typegen.gen_case(rng), observe, 400 if chk.tier == "quick" else 6000, batch=400, label="header")


if __name__ == "__main__":
    main(main_, "C03")
