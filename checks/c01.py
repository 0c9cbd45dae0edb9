"""C01: exactly the C declarations the rules accept come out."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import hdrgen, invcheck
from vlib import *


def gen(rng, k):
    namer = hdrgen.Namer(rng, hdrgen.LETTERS)
    nf = rng.choice([1, 1, 1, 2, 3])
    names = ["foo.h"] + rng.sample(["h1.h", "h2.h", "sub/h1.h", "sub/h2.h", "oth/h1.h", "oth/sub/h2.h", "sub/foo.h"], nf - 1)
    decls = hdrgen.gen_decls(rng, namer, rng.randint(6, 16), files=nf)
    for d in decls:
        d["file"] = names[d["file"]]
    ignored = []
    if nf > 1 and rng.random() < 0.5:
        for n in rng.sample(names[1:], rng.randint(1, nf - 1)):
            parts = n.split("/")
            ignored.append("/".join(parts[rng.randrange(len(parts)):]))
        if rng.random() < 0.3:
            ignored.append(rng.choice(["none.h", "sub", "h1", "h"]) if rng.random() < 0.7 else "sub/h2.h")
        ignored = [p for p in ignored if p != "foo.h"]
        ignored = [p for p in ignored if p != "h"]
    if ignored:
        # nothing that stays may refer to what is ignored
        gone = {d["td"] for d in decls if any(("/" + d["file"]).endswith("/" + p) for p in ignored)}
        decls = [d for d in decls if d.get("of") not in gone]
    fix_refs(decls, names)
    return {"filenames": names, "decls": order(decls, names), "ignored": ignored,
            "rules": hdrgen.gen_selection(rng, decls), "mode": "set"}


def fix_refs(decls, names):
    home = {d["td"]: d["file"] for d in decls if d["k"] in ("st", "un")}
    for d in decls:
        if d["k"] == "sv":
            d["file"] = home[d["of"]]


def order(decls, names):
    fs = sorted(names)
    return [d for f in fs for d in decls if d["file"] == f]


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCInventory", "MCInventory2.cfg" if chk.tier == "quick" else "MCInventory.cfg")
    batch_check(chk, "ConfInventory", gen, invcheck.observe, 1000 if chk.tier == "quick" else 12000, batch=1000, label="package")


if __name__ == "__main__":
    main(main_, "C01")
