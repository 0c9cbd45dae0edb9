"""Self-check of the machinery (not a property): Rx.tla agrees with Go's regexp."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import json
from vlib import *
import rxgen

def main_(chk):
    rng = chk.rng
    b = chk.build_tool("rxref")
    n = chk.args.n or 2000
    cases, qs = [], []
    for _ in range(n):
        alpha = "abxyABXY_1"
        rx, g = rxgen.gen(rng, alpha)
        ci = rng.random() < 0.3
        s = "".join(rng.choice(alpha) for _ in range(rng.randint(0, 8)))
        to = []
        for _ in range(rng.randint(0, 3)):
            to.append({"k": "g", "g": rng.randint(0, g)} if rng.random() < 0.6 else {"k": "s", "v": rng.choice(["Q", "zz", "_"])})
        cases.append({"from": rx, "ci": ci, "s": s, "to": to})
        qs.append({"Pat": rxgen.pattern(rx, ci), "S": s, "To": rxgen.template(to)})
    r = run([b], input=json.dumps(qs))
    for c, q, a in zip(cases, qs, json.loads(r.out)):
        if a["err"]:
            raise InfraError(str(q) + a["err"])
        c["want"], c["matched"] = a["want"], a["matched"]
    bad = chk.judge("ConfRx", cases)
    for i in list(bad)[:5]:
        print(qs[i], cases[i]["want"], cases[i]["matched"], bad[i]["got"])
    if bad:
        raise InfraError("%d disagreements" % len(bad))
    print("rx self-check ok", n, "matched", sum(c["matched"] for c in cases))
chk = Check("SELFRX")
main_(chk)
