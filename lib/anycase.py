"""Headers with configurations of every kind the other checks generate."""
import copy, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import callgen, cbgen, constgen, hdrgen, invcheck, rxgen, structgen, typegen

KINDS = ["types", "structs", "consts", "decls", "names", "docs", "calls", "callbacks", "wrappers"]


def guard(lines):
    return "#ifndef FOO_H\n#define FOO_H\n" + "\n".join(lines) + "\n#endif\n"


def any_case(rng, kinds=KINDS):
    """[kind, files, cfg (a dict) or text of the configuration]"""
    import c03, c06, c16
    kind = rng.choice(kinds)
    text = None
    if kind in ("types", "structs"):
        c = typegen.gen_case(rng, kind == "structs")
        files, cfg = {"foo.h": guard(c["lines"])}, c03.config(c)
    elif kind == "consts":
        c = constgen.gen_case(rng)
        cr = {k: v for k, v in (("enum", c["enummode"]), ("defines", c["defmode"])) if v}
        cfg = {"GENERATOR": {"PackageName": "foo", "Includes": ["foo.h"]}, "PARSER": {"SourcesPaths": ["foo.h"]},
               "TRANSLATOR": {"Rules": c["rules"], "ConstRules": cr}}
        if c["tips"]:
            cfg["TRANSLATOR"]["TypeTips"] = {"enum": c["tips"]}
        files = {"foo.h": guard(c["lines"])}
    elif kind in ("decls", "names"):
        c = c06.gen(rng, 0)
        if kind == "names":
            c["rules"] = hdrgen.gen_naming(rng, c["decls"])
        files = invcheck.render(c)
        cfg = json.loads(files.pop("foo.yml"))
    elif kind == "docs":
        c = c16.gen(rng, 0)
        files, cfg = c["files"], c16.config(c)
    elif kind == "calls":
        c = callgen.gen_package(rng)
        files, cfg = {"foo.h": c["header"]}, c["cfg"]
    elif kind == "callbacks":
        c = cbgen.gen_package(rng)
        files, cfg = {"foo.h": c["header"]}, c["cfg"]
    elif kind == "wrappers":
        c = structgen.gen_package(rng, 1, 4)
        files, cfg, text = {"foo.h": structgen.header(c)}, None, structgen.config(c)
    return {"kind": kind, "files": files, "cfg": cfg, "text": text}


def options(rng, c):
    """Other parts of the configuration, which apply to whatever it is about."""
    if c["cfg"] is None:
        return c
    c["cfg"] = copy.deepcopy(c["cfg"])
    G = c["cfg"]["GENERATOR"]
    if rng.random() < 0.5:
        o = {k: True for k in ("SafeStrings", "StructAccessors", "KeepAlive") if rng.random() < 0.5}
        if o:
            G["Options"] = dict(G.get("Options", {}), **o)
    if rng.random() < 0.3:
        G["PackageDescription"] = rng.choice(["what it is for", "two\nlines"])
    if rng.random() < 0.3:
        G["PackageLicense"] = "license\ntext"
    if rng.random() < 0.3:
        G["SysIncludes"] = ["stddef.h"]
    if rng.random() < 0.3:
        G["FlagGroups"] = [{"name": "CFLAGS", "traits": ["linux", "windows"], "flags": ["-DA", "-DB=1"]}, {"name": "LDFLAGS", "flags": ["-lm"]}]
    if rng.random() < 0.4:
        P = c["cfg"].setdefault("PARSER", {})
        P["Defines"] = {n: rng.choice([1, 7, "word", "x y"]) for n in rng.sample(["zqDef_a", "zqDef_b", "ZQDEF", "zqdefC", "OTHER", "zz"], rng.randint(2, 5))}
    return c


def config_text(c, package, rng=None):
    """With another package name; with rng, the keys of every section in another order."""
    if c["cfg"] is None:
        return c["text"].replace('"PackageName": "foo"', '"PackageName": "%s"' % package)
    cfg = copy.deepcopy(c["cfg"])
    cfg["GENERATOR"]["PackageName"] = package

    def mix(o):
        if isinstance(o, dict):
            ks = list(o)
            rng.shuffle(ks)
            return {k: mix(o[k]) for k in ks}
        return [mix(x) for x in o] if isinstance(o, list) else o
    return json.dumps(mix(cfg) if rng else cfg, indent=rng.choice([None, 1, 4]) if rng else 1)
