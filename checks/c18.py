"""C18: validations stand before the functions they are for."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import hdrgen, rxgen
from vlib import *

RETS = {"i": [("-1", "-1"), ("zqSeven", "7"), ("int32(len(zqWord))", "4")], "s": [('"no"', "no"), ("zqWord", "word"), ('""', "")], "v": [("", "")]}
VFS = ["zqCheck", "ZqAllowed", "zqLib.Load"]


def gen(rng, k):
    used, fns = set(), []
    kinds = rng.sample("isv", rng.randint(1, 3))
    for _ in range(rng.randint(5, 12)):
        kind = rng.choice(kinds)
        while True:
            n = "zq" + kind + "".join(rng.choice("abxyXY_") for _ in range(rng.randint(1, 4)))
            if n.lower() not in used and n[-1] != "_":
                break
        used.add(n.lower())
        fns.append({"c": n, "kind": kind, "st": rng.random() < 0.5})
    vals = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        kind = rng.choice(kinds)
        names = [f["c"] for f in fns if f["kind"] == kind] or ["zq"]
        for _ in range(20):
            tail, _g = rxgen.gen(rng, "abxyXY", depth=1, anchors=False)
            ns = [rxgen.lit(ch) for ch in "zq" + kind]
            r = rng.random()
            if r < 0.4:
                ns.insert(0, {"k": "bol"})
            elif r < 0.7:
                ns.pop(0)
            if rng.random() < 0.85:
                ns.append({"k": "star", "n": {"k": "any"}})
                ns.append(hdrgen.strip_groups(tail))
            if rng.random() < 0.15:
                ns.append({"k": "eol"})
            rx = {"k": "seq", "ns": ns}
            if any(re.search(rxgen.render(rx), n) for n in names):
                break
        if len(kinds) == 1 and rng.random() < 0.15:
            rx = rxgen.NONE
        ret, shown = rng.choice(RETS[kind])
        vals.append({"fn": rng.choice(VFS), "from": rx, "ci": rx["k"] != "none" and rng.random() < 0.25, "ret": ret, "shown": shown})
    calls = []
    for _ in range(3 * len(fns)):
        f = rng.randrange(len(fns))
        bad = [[v, g["c"]] for g in fns for v in VFS if rng.random() < (0.5 if g is fns[f] else 0.3)]
        calls.append({"f": f + 1, "n": rng.randint(0, 99), "bad": bad})
    return {"fns": fns, "vals": vals, "calls": calls, "strip": rng.random() < 0.5, "lower": rng.random() < 0.3}


def goname(c, n):
    n = n[2:] if c["strip"] else n
    n = n.lower() if c["lower"] else n
    return n[0].upper() + n[1:]


def render(c):
    h = ["#ifndef ZQ_H", "#define ZQ_H", "typedef struct { int a; } zqSt;"]
    cc = ['#include "foo.h"', "extern void zqlog(char *, int);", "static char zqbuf[32];", "extern int snprintf(char *, unsigned long, const char *, ...);"]
    gg = []
    for f in c["fns"]:
        t = {"i": "int", "s": "const char *", "v": "void"}[f["kind"]]
        sig = "%s %s(%sint n)" % (t, f["c"], "zqSt *p, " if f["st"] else "")
        h.append(sig + ";")
        r = {"i": "return 2 * n + 1;", "s": 'snprintf(zqbuf, 32, "r%d", n); return zqbuf;', "v": ""}[f["kind"]]
        cc.append('%s { zqlog("%s", n); %s }' % (sig, f["c"], r))
        args = "p, n" if f["st"] else "n"
        call = "%s(%s)" % (goname(c, f["c"]), args)
        show = {"i": "v := fmt.Sprint(int32(%s))" % call, "s": "v := strings.Clone(string(%s))" % call, "v": 'v := ""; %s' % call}[f["kind"]]
        gg.append('\t\tcase "%s": %s; zqRet("%s", v, %s)' % (f["c"], show, f["c"], "p.Ref() != nil" if f["st"] else "zqRan"))
    h.append("#endif")
    go = """package foo

// #include <stdlib.h>
import "C"
import ("encoding/json"; "errors"; "fmt"; "os"; "strings")
var _ = strings.Clone

type zqEv struct { E string `json:"e"`; Name string `json:"name"`; V string `json:"v"` }
var zqEvs = []zqEv{}
var zqBad map[[2]string]bool
var zqRan bool
var zqSeven int32 = 7
var zqWord = "word"

func zqAsk(f, n string) error {
	zqEvs = append(zqEvs, zqEv{"ask " + f, n, ""})
	if zqBad[[2]string{f, n}] { return errors.New("refused") }
	return nil
}
func zqCheck(n string) error { return zqAsk("zqCheck", n) }
func ZqAllowed(n string) error { return zqAsk("ZqAllowed", n) }
type zqLibT struct{}
func (zqLibT) Load(n string) error { return zqAsk("zqLib.Load", n) }
var zqLib zqLibT

//export zqlog
func zqlog(n *C.char, v C.int) { zqRan = true; zqEvs = append(zqEvs, zqEv{"C", C.GoString(n), fmt.Sprint(int(v))}) }

func zqRet(n, v string, touched bool) {
	e := "return"
	if !touched { e = "return untouched" }
	zqEvs = append(zqEvs, zqEv{e, n, v})
}

func ZqMain() {
	var in []struct{ C string; N int32; Bad [][2]string }
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil { panic(err) }
	for _, x := range in {
		p, n := &%s{A: 3}, x.N
		_, _ = p, n
		zqRan = false
		zqBad = map[[2]string]bool{}
		for _, b := range x.Bad { zqBad[b] = true }
		switch x.C {
%s
		}
	}
	json.NewEncoder(os.Stdout).Encode(zqEvs)
}
""" % (goname(c, "zqSt"), "\n".join(gg))
    rules = {"global": [{"action": "accept", "from": "^zq"}], "public": [{"transform": "export"}], "private": [{"transform": "unexport"}], "post-global": [{"transform": "export"}]}
    if c["strip"]:
        rules["global"].append({"action": "replace", "from": "^zq"})
    if c["lower"]:
        rules["global"].append({"transform": "lower"})
    cfg = {"GENERATOR": {"PackageName": "foo", "Includes": ["foo.h"], "FlagGroups": []},
           "PARSER": {"SourcesPaths": ["foo.h"]},
           "TRANSLATOR": {"ConstRules": {"defines": "expand"}, "Rules": rules, "PtrTips": {"function": [{"target": "^zq", "default": "ref"}]},
                          "Validations": [{"ValidateFunc": v["fn"], "Ret": v["ret"], "MatchedFunc": rxgen.pattern(v["from"], v["ci"])} for v in c["vals"]]}}
    cfg["TRANSLATOR"]["Validations"] = [{k.lower(): v for k, v in o.items()} for o in cfg["TRANSLATOR"]["Validations"]]
    return {"foo.h": "\n".join(h) + "\n", "c": "\n".join(cc) + "\n", "go": go, "cfg": json.dumps(cfg, indent=1)}


def observe(chk, cases):
    def one(c):
        d = chk.newdir()
        r = render(c)
        chk.write_files(d, {"foo.yml": r["cfg"], "foo.h": r["foo.h"]})
        g = chk.cli(d, ["-nostamp", "-out", "out", "foo.yml"], imports=True)
        err, log = "", []
        if g.rc or g.timeout:
            err = "c-for-go: " + g.err[-300:]
        else:
            chk.write_files(os.path.join(d, "out"), {"go.mod": "module foo\n\ngo 1.23\n", "foo/foo.h": r["foo.h"], "foo/zq.c": r["c"], "foo/zq.go": r["go"],
                                                      "main.go": 'package main\n\nimport "foo/foo"\n\nfunc main() { foo.ZqMain() }\n'})
            b = run(["go", "build", "-o", "prog", "."], cwd=os.path.join(d, "out"), env=go_env(CGO_CFLAGS="-O0 -w"), timeout=300)
            if b.rc:
                err = "build: " + b.err[:600]
            else:
                inp = json.dumps([{"C": c["fns"][x["f"] - 1]["c"], "N": x["n"], "Bad": x["bad"]} for x in c["calls"]])
                p = chk.prog(d, input=inp)
                try:
                    log = json.loads(p.out)
                except ValueError:
                    err = "died: rc %s %s" % (p.rc, p.err[:300])
        if not chk.args.keep:
            shutil.rmtree(d, ignore_errors=True)
        return {"fns": [{"c": f["c"], "kind": f["kind"]} for f in c["fns"]], "vals": c["vals"], "calls": c["calls"], "obs": log, "err": err}
    return chk.pmap(one, cases)


def main_(chk):
    chk.build()
    if not chk.args.replay:
        chk.model("MCGuards")
    batch_check(chk, "ConfGuards", gen, observe, 48 if chk.tier == "quick" else 400, batch=48, label="package")


if __name__ == "__main__":
    main(main_, "C18")
