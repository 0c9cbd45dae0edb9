"""Shared by C01, C02 and C06: header inventories through the real CLI, judged by
ConfInventory.tla."""
import json, os
import hdrgen
from vlib import *


def render(case):
    """Files of the scenario, and the order in which the declarations stand."""
    files = {}
    order = {}
    for i, name in enumerate(case["filenames"]):
        ds = [d for d in case["decls"] if d["file"] == name]
        lines = ["#pragma once"]
        if i == 0:
            incs = case.get("includes", case["filenames"][1:])
            lines += ['#include "%s"' % n for n in incs]
        free = False
        for g in hdrgen.c_groups(ds):
            d = g[0]
            if d.get("join") and free and d["k"] != "macro":
                lines[-1] += " " + hdrgen.c_group(g)
            else:
                lines.append(hdrgen.c_group(g))
            free = d["k"] != "macro"
            if "pad" in d:
                lines += [""] * d["pad"]
        files[name] = "\n".join(lines) + "\n"
    cfg = {"GENERATOR": {"PackageName": "foo", "Includes": [case["filenames"][0]]},
           "PARSER": {"SourcesPaths": case.get("sources", [case["filenames"][0]]), "IgnoredPaths": case["ignored"]},
           "TRANSLATOR": {"Rules": hdrgen.rules_config(case["rules"])}}
    if not case["ignored"]:
        del cfg["PARSER"]["IgnoredPaths"]
    files["foo.yml"] = json.dumps(cfg, indent=1)
    return files


def observe(chk, cases):
    dirs = [chk.newdir() for _ in cases]

    def go(k):
        chk.write_files(dirs[k], render(cases[k]))
        return chk.cli(dirs[k], ["-fancy=false", "-nostamp", "-out", "out", "foo.yml"])
    res = chk.pmap(go, range(len(cases)))
    reps = chk.inspect([os.path.join(d, "out", "foo") for d in dirs])
    obs = []
    for case in cases:
        for d in case["decls"]:
            d.setdefault("ret", "")
    for case, r, rep, d in zip(cases, res, reps, dirs):
        shutil.rmtree(d, ignore_errors=True)
        broken = [f["name"] for f in rep["files"] if f["error"]]
        o = hdrgen.observe(rep, case["decls"])
        if r.rc != 0:  # these inputs are all within what is supported
            o["main"].append({"t": "failed", "id": -9, "n": "c-for-go: " + r.err[-300:], "sub": []})
        byname = {}
        svs = [x for x in case["decls"] if x["k"] == "sv"]
        # a variable is recognised by its (unique) struct type where possible, else by name
        for it in o["main"]:
            if it["t"] == "var":
                cand = [x for x in svs if x["td"].lower() == it["n"].lower()] if case["mode"] != "names" else \
                    [x for x in svs if x["of"] in {d["td"] for d in case["decls"] if d["id"] in
                     {t["id"] for t in o["types"] if t["n"] == it["vt"]} and d["k"] in ("st", "un")}]
                it.pop("vt")
                it["id"] = cand[0]["id"] if len(cand) == 1 else -1
        x = {"rules": case["rules"], "decls": [{k: d[k] for k in ("k", "td", "tag", "id", "members", "names", "static", "complete", "file", "ret")} for d in case["decls"]],
             "ignored": case["ignored"], "mode": case["mode"], "obs": o, "broken": broken}
        obs.append(x)
    return obs
