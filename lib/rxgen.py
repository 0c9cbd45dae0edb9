"""Random regular expressions as trees (see specs/Rx.tla) and their Go syntax."""

def lit(c): return {"k": "lit", "c": c}
def seq(*ns): return {"k": "seq", "ns": list(ns)}
def word(w): return {"k": "seq", "ns": [lit(c) for c in w]}
NONE = {"k": "none"}


def esc(c):
    return "\\" + c if c in ".+*?()|[]{}^$\\" else c


def render(n, top=True):
    k = n["k"]
    if k == "lit":
        return esc(n["c"])
    if k == "any":
        return "."
    if k == "cls":
        return "[" + ("^" if n["neg"] else "") + "".join(c if c not in "]^\\-" else "\\" + c for c in n["cs"]) + "]"
    if k == "bol":
        return "^"
    if k == "eol":
        return "$"
    if k == "seq":
        return "".join(render(x) if x["k"] != "alt" else "(?:" + render(x) + ")" for x in n["ns"])
    if k == "alt":
        return "|".join(render(x) for x in n["ns"])
    if k == "grp":
        return "(" + render(n["n"]) + ")"
    s = render(n["n"])
    if n["n"]["k"] in ("seq", "alt", "star", "plus", "opt", "bol", "eol"):
        s = "(?:" + s + ")"
    return s + {"star": "*", "plus": "+", "opt": "?"}[k]


def pattern(n, ci):
    """Go syntax of the whole expression."""
    if n["k"] == "none":
        return ""
    return ("(?i)" if ci else "") + render(n)


def gen_atom(rng, alpha):
    r = rng.random()
    if r < 0.6:
        return lit(rng.choice(alpha))
    if r < 0.7:
        return {"k": "any"}
    cs = "".join(sorted(rng.sample(alpha, min(len(alpha), rng.randint(1, 3)))))
    return {"k": "cls", "neg": rng.random() < 0.3, "cs": cs}


def gen_piece(rng, alpha, depth, st):
    r = rng.random()
    if depth > 0 and r < 0.18 and st["g"] < 3:
        st["g"] += 1
        g = st["g"]
        return {"k": "grp", "g": g, "n": gen_seq(rng, alpha, depth - 1, st)}
    if depth > 0 and r < 0.26:
        return {"k": "alt", "ns": [gen_seq(rng, alpha, depth - 1, st) for _ in range(rng.randint(2, 3))]}
    a = gen_atom(rng, alpha)
    r = rng.random()
    if r < 0.12:
        return {"k": "star", "n": a}
    if r < 0.24:
        return {"k": "plus", "n": a}
    if r < 0.32:
        return {"k": "opt", "n": a}
    return a


def gen_seq(rng, alpha, depth, st):
    return {"k": "seq", "ns": [gen_piece(rng, alpha, depth, st) for _ in range(rng.randint(1, 3))]}


def gen(rng, alpha, depth=2, anchors=True):
    st = {"g": 0}
    n = gen_seq(rng, alpha, depth, st)
    if anchors and rng.random() < 0.25:
        n["ns"].insert(0, {"k": "bol"})
    if anchors and rng.random() < 0.25:
        n["ns"].append({"k": "eol"})
    if rng.random() < 0.12:
        n = {"k": "alt", "ns": [n, gen_seq(rng, alpha, depth - 1, st)]}
    return n, st["g"]


def template(t):
    """Go syntax of a replacement template."""
    return "".join(p["v"].replace("$", "$$") if p["k"] == "s" else "${%d}" % p["g"] for p in t)
