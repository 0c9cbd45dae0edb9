"""C16: comments say what a declaration is called and where it comes from."""
import json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import hdrgen, rxgen
from vlib import *

DOCTARGETS = ["global", "post-global", "const", "type", "function"]
VARS = ["path", "file", "line", "name", "goname"]


def gen_template(rng):
    ps = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.7:
            ps.append({"k": "v", "v": rng.choice(VARS)})
        else:
            ps.append({"k": "s", "v": rng.choice([":", "+", "x", "_y", "https://e.org/?q=", "#L", " line ", "-", "7", "&a=", "(", ")"])})
    while ps[-1]["v"].endswith(" "):
        ps.pop()
        ps = ps or [{"k": "v", "v": "name"}]
    if ps[0]["v"].startswith(" "):
        ps[0] = {"k": "v", "v": "file"}
    return ps


def template(rng, ps):
    out = ""
    for j, p in enumerate(ps):
        if p["k"] == "s":
            out += p["v"]
        else:
            nxt = ps[j + 1] if j + 1 < len(ps) else None
            bare = nxt is None or (nxt["k"] == "v" or not re.match(r"[A-Za-z0-9_]", nxt["v"]))
            out += "$" + p["v"] if bare and rng.random() < 0.6 else "${%s}" % p["v"]
    return out


def layout(rng, g):
    """C text over several lines."""
    t, d = hdrgen.c_group(g), g[0]
    if d["k"] == "macro":
        return [t] if rng.random() < 0.7 else ["#define %s \\" % d["td"], "  %d" % d["id"]]
    seps = ["\n", "\n\n  ", " /* x\n y */ ", " // z\n"]
    t = "".join(rng.choice(seps) if ch == " " and rng.random() < 0.2 else ch for ch in t)
    return t.split("\n")


def find(lines, name):
    hits = [j for j, l in enumerate(lines) if re.search(r"(?<!\w)%s(?!\w)" % re.escape(name), l)]
    return hits


def gen(rng, k):
    namer = hdrgen.Namer(rng, hdrgen.LETTERS)
    nf = rng.choice([1, 2, 3])
    pool = ["a.h", "b1.h", "B.h", "z_2.h", "sub/c.h", "sub/deep/a2.h"]
    names = [rng.choice([p for p in pool if "/" not in p])]
    names += rng.sample([p for p in pool if p not in names], nf - 1)
    decls = hdrgen.gen_decls(rng, namer, rng.randint(8, 16), files=nf, dup=0.3)
    for d in decls:
        d["file"] = names[d["file"]]
        if d["tag"]:
            d.pop("var", None)  # where an enum stands that is declared with a variable is left open
    home = {d["td"]: d["file"] for d in decls if d["k"] in ("st", "un")}
    for d in decls:
        if d["k"] == "sv":
            d["file"] = home[d["of"]]
    decls = [d for f in sorted(names) for d in decls if d["file"] == f]
    rules = hdrgen.gen_naming(rng, decls, core="xyXY") if rng.random() < 0.5 else {"global": [hdrgen.rule("accept", rxgen.word("zq"), True)]}
    for rs in rules.values():
        rs[:] = [r for r in rs if not r["load"].startswith("doc")]
    for t in DOCTARGETS:
        if rng.random() < 0.4:
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.25:
                    r = hdrgen.rule(load=rng.choice(["doc.file", "doc.google"]))
                else:
                    r = hdrgen.rule("doc", to=gen_template(rng) if rng.random() < 0.9 else [])
                if rng.random() < 0.65:
                    for _ in range(12):
                        rx, _g = rxgen.gen(rng, hdrgen.LETTERS + "_12", depth=1)
                        hits = sum(1 for n in hdrgen.all_names(decls) if re.search(rxgen.render(rx), n))
                        if 0 < hits:
                            break
                    r["from"], r["ci"] = rx, rng.random() < 0.2
                if r["to"]:
                    r["totext"] = template(rng, r["to"])
                rs = rules.setdefault(t, [])
                rs.insert(rng.randint(0, len(rs)), r)
    # the text, and where everything stands
    files, lineno = {}, {}
    for j, f in enumerate(names):
        ls = ["#ifndef G%d" % j, "#define G%d" % j] if rng.random() < 0.5 else ["#pragma once"]
        guard = len(ls) == 2
        if j == 0:
            ls += ['#include "%s"' % n for n in names[1:]]
        for g in hdrgen.c_groups([d for d in decls if d["file"] == f]):
            d = g[0]
            tl = layout(rng, g)
            # on the last line of the previous declaration
            join = d["k"] != "macro" and ls[-1] and "//" not in ls[-1] and ls[-1].endswith((";", "}")) and rng.random() < 0.2
            if join:
                ls[-1] += " " + tl[0]
                at = len(ls)
                ls += tl[1:]
            else:
                ls += [""] * rng.choice([0, 0, 1, 2])
                at = len(ls) + 1
                ls += tl
            for d in g:
                if d["k"] in ("enum", "st", "un") and not d["td"]:
                    d["line"] = at + find(tl, {"enum": "enum", "st": "struct", "un": "union"}[d["k"]])[0]
                else:
                    d["line"] = at + find(tl, d["td"])[-1]
                for m in d["members"]:
                    for j in find(tl, m["n"])[:1]:
                        m["line"] = at + j
        if guard:
            ls.append("#endif")
        files[f] = "\n".join(ls) + "\n"
    case = {"filenames": names, "decls": decls, "rules": rules, "files": files}
    case["sources"] = [names[0]] if rng.random() < 0.5 else rng.sample(names, nf)
    if len(case["sources"]) > 1:  # several sources: no inclusion needed, but the lines stay
        files[names[0]] = files[names[0]].replace("#include", "// include")
    return case


def config(case):
    rules = {t: [dict(r) for r in rs] for t, rs in case["rules"].items()}
    plain = {t: [dict(r, to=[] if r["act"] == "doc" or r["load"].startswith("doc") else r["to"]) for r in rs] for t, rs in rules.items()}
    y = hdrgen.rules_config(plain)
    for t, rs in rules.items():
        for r, o in zip(rs, y[t]):
            if r.get("totext"):
                o["to"] = r["totext"]
    return {"GENERATOR": {"PackageName": "foo", "Includes": [case["filenames"][0]]},
            "PARSER": {"SourcesPaths": case["sources"]}, "TRANSLATOR": {"Rules": y}}


def observe(chk, cases):
    dirs = [chk.newdir() for _ in cases]

    def go(k):
        fs = dict(cases[k]["files"])
        fs["foo.yml"] = json.dumps(config(cases[k]), indent=1)
        chk.write_files(dirs[k], fs)
        return chk.cli(dirs[k], ["-nostamp", "-out", "out", "foo.yml"] if k % 3 == 0 else ["-fancy=false", "-nostamp", "-out", "out", "foo.yml"])
    res = chk.pmap(go, range(len(cases)))
    reps = chk.inspect([os.path.join(d, "out", "foo") for d in dirs])
    obs = []
    for case, r, rep, d in zip(cases, res, reps, dirs):
        shutil.rmtree(d, ignore_errors=True)
        o = {"-": ""}
        for x in rep["types"] + rep["funcs"] + rep["consts"]:
            if x["file"] == "cgo_helpers.go" or x.get("recv"):
                continue
            n = x["name"]
            if x in rep["consts"] and n.startswith("sizeof") and n[6:] in {t["name"] for t in rep["types"]}:
                n = n[6:]  # the comment of a union stands on its size
            if x["doc"].strip() or n not in o:
                o[n] = x["doc"].strip()
        if r.rc != 0:
            o = {"-": "c-for-go: " + r.err[-300:]}
        parents = {f: os.path.basename(os.path.dirname(os.path.join(d, f))) for f in case["filenames"]}
        rules = {t: [{kk: vv for kk, vv in x.items() if kk != "totext"} for x in rs] for t, rs in case["rules"].items()}
        ds = [dict({kk: x[kk] for kk in ("k", "td", "tag", "id", "members", "names", "static", "complete", "file", "line")}, ret="") for x in case["decls"]]
        obs.append({"rules": rules, "decls": ds, "parents": parents, "obs": o})
    return obs


def main_(chk):
    chk.build()
    batch_check(chk, "ConfComments", gen, observe, 500 if chk.tier == "quick" else 6000, batch=500, label="package")


if __name__ == "__main__":
    main(main_, "C16")
