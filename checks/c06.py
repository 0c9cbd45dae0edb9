"""C06: declarations come out once each, in source order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import hdrgen, invcheck, rxgen
from vlib import *


def gen(rng, k):
    namer = hdrgen.Namer(rng, hdrgen.LETTERS)
    nf = rng.choice([1, 2, 2, 3, 4])
    pool = ["a.h", "b1.h", "B.h", "z_2.h", "m.h", "sub/c.h", "sub/a2.h"]
    names = rng.sample(pool, nf)
    decls = hdrgen.gen_decls(rng, namer, rng.randint(8, 20), files=nf, dup=0.3)
    for d in decls:
        d["file"] = names[d["file"]]
    home = {d["td"]: d["file"] for d in decls if d["k"] in ("st", "un")}
    for d in decls:
        if d["k"] == "sv":
            d["file"] = home[d["of"]]
    fs = sorted(names)
    decls = [d for f in fs for d in decls if d["file"] == f]
    for d in decls:
        d["join"] = rng.random() < 0.25
    # either one source that includes the rest, or several sources in any order
    case = {"filenames": names, "decls": decls, "ignored": [], 
            "rules": {"global": [hdrgen.rule("accept", rxgen.word("zq"), True)]}, "mode": "order"}
    if "/" in names[0] or rng.random() < 0.5:
        case["includes"] = []
        case["sources"] = rng.sample(names, nf)
    return case


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCInventory", "MCInventory2.cfg" if chk.tier == "quick" else "MCInventory.cfg")
    batch_check(chk, "ConfInventory", gen, invcheck.observe, 700 if chk.tier == "quick" else 8000, batch=700, label="package")


if __name__ == "__main__":
    main(main_, "C06")
