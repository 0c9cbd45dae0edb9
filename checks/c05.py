"""C05: generated constants mean what they mean in C."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import constgen
from vlib import *


def observe(chk, cases):
    dirs = [chk.newdir() for _ in cases]

    def go(k):
        c = cases[k]
        cr = {}
        if c["enummode"]:
            cr["enum"] = c["enummode"]
        if c["defmode"]:
            cr["defines"] = c["defmode"]
        cfg = {"GENERATOR": {"PackageName": "foo", "Includes": ["foo.h"]}, "PARSER": {"SourcesPaths": ["foo.h"]},
               "TRANSLATOR": {"Rules": c["rules"], "ConstRules": cr, "TypeTips": {"any" if len(c["lines"]) % 5 == 0 else "enum": c["tips"]}}}
        if not c["tips"]:
            del cfg["TRANSLATOR"]["TypeTips"]
        chk.write_files(dirs[k], {"foo.yml": json.dumps(cfg), "foo.h": "#ifndef FOO_H\n#define FOO_H\n" + "\n".join(c["lines"]) + "\n#endif\n"})
        return chk.cli(dirs[k], ["-fancy=false", "-nostamp", "-out", "out", "foo.yml"])
    res = chk.pmap(go, range(len(cases)))
    reps = chk.inspect([os.path.join(d, "out", "foo") for d in dirs])
    out = []
    for c, r, rep, d in zip(cases, res, reps, dirs):
        shutil.rmtree(d, ignore_errors=True)
        obs = {}
        if r.rc != 0:
            c["error"] = r.err[-300:]
        for k in rep["consts"] or []:
            v = k["value"]
            num, den = (v.split("/") + ["1"])[:2] if k["vkind"] in ("int", "float") else ("0", "1")
            obs[k["name"]] = {"vk": k["vkind"], "num": num, "den": den, "bytes": k["bytes"] or [], "type": k["type"], "expr": k["expr"], "idents": k["idents"] or []}
        for k in rep["types"] or []:
            obs.setdefault(k["name"], {"vk": "", "num": "0", "den": "1", "bytes": [], "type": k["expr"], "expr": "", "idents": []})
        obs["-"] = {"vk": "", "num": "0", "den": "1", "bytes": [], "type": "", "expr": r.err[-200:] if r.rc else "", "idents": []}
        out.append({"items": c["items"], "typedefs": c["typedefs"], "enummode": c["enummode"], "defmode": c["defmode"], "obs": obs})
    return out


def probe(what, line, k, name, toks, base="", defmode="expand"):
    it = {"k": k, "name": name, "toks": toks, "acc": True, "go": name, "first": False, "etype": "", "base": base}
    return what, {"lines": line.split("\n"), "items": [it], "typedefs": [], "enummode": "", "defmode": defmode, "tips": [],
                  "rules": {"global": [{"action": "accept", "from": "^Zq"}]}}


def tk(s):
    return [{"t": "n" if x[0].isdigit() else "s" if x[0] == '"' else "o", "s": x} for x in s.split(" ")]


PROBES = {
    "hex-literals-are-unsigned": probe("(~0x80000000) is 0x7fffffff in C and negative in Go", "#define ZqHex (~0x80000000)", "macro", "ZqHex", tk("( ~ 0x80000000 )")),
    "mixed-suffixes": probe("(1U | 1UL) does not compile in Go", "#define ZqMix (1U | 1UL)", "macro", "ZqMix", tk("( 1U | 1UL )")),
}


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCConsts", cfg="MCConsts.cfg")
        probes(chk, "ConfConsts", observe, PROBES)
    batch_check(chk, "ConfConsts", lambda rng, k: constgen.gen_case(rng), observe, 500 if chk.tier == "quick" else 8000, batch=500, label="header")


if __name__ == "__main__":
    main(main_, "C05")
