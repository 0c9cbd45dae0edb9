"""C02: Go names are what the Rules section makes of the C names."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import hdrgen, invcheck
from vlib import *


def gen(rng, k):
    namer = hdrgen.Namer(rng, rng.choice(["xyXYab", "xyXY", "abxyAB"]))
    decls = hdrgen.gen_decls(rng, namer, rng.randint(4, 10))
    if rng.random() < 0.5:
        # constructors: a function called like the struct it returns, but for case
        for st in [d for d in decls if d["k"] == "st" and d["td"] and d["complete"]][:2]:
            if st["names"]:
                n = st["td"]
                v = rng.choice([n[0].swapcase() + n[1:], n.swapcase(), n.lower(), "new_" + n])
                if v != n and v not in hdrgen.all_names(decls):
                    decls.append({"k": "fn", "td": v, "tag": "", "id": 90 + len(decls), "members": [], "names": [],
                                  "static": False, "complete": True, "ret": n})
    for d in decls:
        d["file"] = "foo.h"
    return {"filenames": ["foo.h"], "decls": decls, "ignored": [], "ignored_files": [],
            "rules": hdrgen.gen_naming(rng, decls), "mode": "names"}


def main_(chk):
    chk.build()
    batch_check(chk, "ConfInventory", gen, invcheck.observe, 800 if chk.tier == "quick" else 12000, batch=800, label="package")


if __name__ == "__main__":
    main(main_, "C02")
