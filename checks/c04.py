"""C04: the members of generated structs."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import typegen
from vlib import *
from c03 import config


def observe(chk, cases):
    dirs = [chk.newdir() for _ in cases]

    def go(k):
        chk.write_files(dirs[k], {"foo.yml": typegen.with_tmap(config(cases[k]), cases[k]["opts"]["tmap"]), "foo.h": "#ifndef FOO_H\n#define FOO_H\n" + "\n".join(cases[k]["lines"]) + "\n#endif\n"})
        return chk.cli(dirs[k], ["-fancy=false", "-nostamp", "-out", "out", "foo.yml"])
    res = chk.pmap(go, range(len(cases)))
    reps = chk.inspect([os.path.join(d, "out", "foo") for d in dirs])
    out = []
    for c, r, rep, d in zip(cases, res, reps, dirs):
        shutil.rmtree(d, ignore_errors=True)
        st = {"-": {"kind": "", "fields": [], "ref": [], "expr": ""}}
        for t in rep["types"] or []:
            fs = [{"n": f["name"], "t": f["type"]} for f in t["fields"] or []] if t["kind"] == "struct" else []
            hid = [f["t"] for f in fs if re.fullmatch("(ref|allocs)[0-9a-f]{1,8}", f["n"])]
            st[t["name"]] = {"kind": t["kind"], "fields": fs[:len(fs) - len(hid)], "ref": hid, "expr": "" if t["kind"] == "struct" else t["expr"]}
        out.append({"env": {a: {"k": e["k"], "acc": e["acc"], "to": e["to"], "cgo": e["cgo"], "mem": e["mem"]} for a, e in c["env"].items()}, "opts": c["opts"],
                    "structs": c["structs"], "ptips": c["ptips"], "ttips": c["ttips"], "mtips": c["mtips"], "obs": {"structs": st, "err": r.err[-300:] if r.rc or r.timeout else ""}})
    return out


def probe(fields, text, **o):
    st = {"k": "struct", "acc": True, "to": typegen.ct("void"), "cgo": "struct_zqSt", "mem": "zqSt"}
    return {"env": {"zqSt": st}, "opts": {"constchar": True, "constuchar": False, "long64": True, "tmap": []}, "arch": "", "lines": ["struct zqSt {%s};" % text], "fns": [], "cbs": [],
            "structs": [{"name": "zqSt", "fields": [{"name": n, "t": t} for n, t in fields]}], "ptips": [], "ttips": [], "mtips": []}


PROBES = {"const-of-members": ("a member const char *m comes out as []byte: the constness of what it points to is lost", probe([("m", typegen.ct("char", 1, True))], "const char *m;")),
          "const-members": ("a member char *const m comes out as string though what it points to is not const", probe([("m", typegen.ct("char", 1))], "char *const m;"))}


def main_(chk):
    chk.build()
    if not chk.args.replay:
        probes(chk, "ConfFields", observe, PROBES)
    batch_check(chk, "ConfFields", lambda rng, k: typegen.gen_case(rng, True), observe, 400 if chk.tier == "quick" else 6000, batch=400, label="header")


if __name__ == "__main__":
    main(main_, "C04")
