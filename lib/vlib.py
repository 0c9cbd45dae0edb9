"""Shared machinery of the checks: build /repo, run the real CLI on scenarios,
inspect what it generated, and let TLC judge the recorded observations against
the TLA+ specification in /verif/specs.

Outcomes of a check: exit 0 (held), exit 1 with a VIOLATION line, anything else
is an error of the check (build failed, TLC did not finish, ...)."""
import argparse, atexit, concurrent.futures as cf, hashlib, json, os, random, re, shutil
import signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TLACP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

GOENV = {
    "HOME": "/root",
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOWORK": "off",
    "GOFLAGS": "-mod=readonly -buildvcs=false",
    "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
}


class InfraError(Exception):
    """The check itself could not do its work (never a violation)."""


def go_env(**extra):
    env = {k: v for k, v in os.environ.items()
           if k not in ("CC", "CPP", "CGO_ENABLED", "CGO_CFLAGS", "GOFLAGS", "PKG_CONFIG_PATH")}
    env.update(GOENV)
    env.update(extra)
    return env


def run(cmd, cwd=None, env=None, timeout=120, input=None):
    """Runs a command in its own process group; kills the group on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(input.encode() if isinstance(input, str) else input, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        to = True
    return Res(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to)


class Res:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


class TLCResult:
    def __init__(self):
        self.ok = False          # finished, no error
        self.rows = []           # decoded @@ rows
        self.generated = 0
        self.distinct = 0
        self.violation = None    # invariant / property text
        self.raw = ""


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        ap = argparse.ArgumentParser()
        ap.add_argument("--replay")
        ap.add_argument("--keep", action="store_true")
        ap.add_argument("--n", type=int)
        ap.add_argument("--tier")
        self.args = ap.parse_args()
        self.tier = self.args.tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.rng = random.Random("%s/%d/%s" % (prop, self.seed, self.tier))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower())
        atexit.register(self._cleanup)
        self.violations = []
        self.known_hit = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self._n = 0
        self.models = []
        self.budget = 95 if self.tier == "quick" else 600
        self.known = load_known(prop)

    def _cleanup(self):
        if not self.args.keep:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.t0

    def left(self):
        return self.budget - self.elapsed()

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, self.elapsed()), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, race=False):
        out = os.path.join(self.scratch, "c-for-go" + ("-race" if race else ""))
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        r = run(cmd, cwd=REPO, env=go_env(), timeout=600)
        if r.rc != 0:
            raise InfraError("build of /repo failed: " + r.err[-2000:])
        self.bin = out
        return out

    def build_tool(self, name):
        out = os.path.join(self.scratch, name)
        r = run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "tools", name), env=go_env(), timeout=600)
        if r.rc != 0:
            raise InfraError("build of tool %s failed: %s" % (name, r.err[-2000:]))
        return out

    # ------------------------------------------------------------- scenario
    def newdir(self, tag="s"):
        self._n += 1
        d = os.path.join(self.scratch, "%s%05d" % (tag, self._n))
        os.makedirs(d)
        return d

    def write_files(self, d, files):
        for p, c in files.items():
            fp = os.path.join(d, p)
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            with open(fp, "w") as f:
                f.write(c)

    def cli(self, d, args, timeout=60, env=None, imports=False):
        """Runs the real c-for-go in directory d. Unless imports are asked for, goimports is kept from
        asking the go command (twice as fast; the files then have no imports and are not formatted)."""
        if env is None:
            env = go_env(GO111MODULE="off", GOWORK="" if imports else "off", GOFLAGS="", GOPATH=os.path.join(self.scratch, "gopath"), GOGC="400", GOMAXPROCS="3")
        hangs = getattr(self, "hangs", 0)  # a tool that hangs is not waited for again and again
        r = run([self.bin] + args, cwd=d, env=env, timeout=timeout if hangs < 4 else 10 if hangs < 40 else 1)
        if r.timeout:
            self.hangs = hangs + 1
        return r

    def prog(self, d, args=(), timeout=90, input=None, **env):
        """Runs the program that was built in d; as for the tool, after some that hang the others get less time."""
        hangs = getattr(self, "hung", 0)
        r = run([os.path.join(d, "out", "prog")] + list(args), cwd=d, env=go_env(**env), timeout=timeout if hangs < 8 else 12 if hangs < 24 else 3, input=input)
        if r.timeout:
            self.hung = hangs + 1
        return r

    def pmap(self, fn, items, workers=8):
        with cf.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))

    def inspect(self, dirs):
        if not hasattr(self, "_insp"):
            self._insp = self.build_tool("goinspect")
        r = run([self._insp], input=json.dumps(dirs), env=go_env(), timeout=300)
        if r.rc != 0:
            raise InfraError("goinspect failed: " + r.err[-2000:])
        return json.loads(r.out)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cases=None, cfg=None, timeout=None, workers=8, extra=(), env=None, xmx="6g",
            count=True, expect_violation=False):
        """Runs TLC on specs/<module>.tla. Rows printed as "@@<json>" are returned."""
        meta = self.newdir("tlc")
        e = dict(os.environ)
        e.update(env or {})
        if cases is not None:
            p = os.path.join(meta, "cases.json")
            with open(p, "w") as f:
                json.dump(cases, f)
            e["CASES"] = p
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss512m", "-Djava.io.tmpdir=" + meta, "-cp", TLACP, "tlc2.TLC",
               "-metadir", os.path.join(meta, "states"), "-workers", str(workers),
               "-config", cfg or (module + ".cfg"), "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
        r = run(cmd, cwd=SPECS, env=e, timeout=timeout or max(60, 900 if self.tier == "thorough" else 400))
        res = TLCResult()
        res.raw = r.out + r.err
        if r.timeout:
            raise InfraError("TLC on %s did not finish" % module)
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                body = line[3:-1]
                try:
                    res.rows.append(json.loads(body))
                except ValueError:
                    try:
                        res.rows.append(json.loads(json.loads('"' + body + '"')))
                    except ValueError:
                        raise InfraError("cannot decode TLC row: " + line[:300])
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        if m:
            res.generated, res.distinct = int(m[-1][0]), int(m[-1][1])
        mv = re.search(r"Error: (Invariant .*? is violated.*|Action property .*? is violated.*|Temporal properties were violated.*|Deadlock reached.*)", r.out)
        if mv:
            res.violation = mv.group(1)
        res.ok = "Model checking completed. No error has been found." in r.out or \
                 ("Finished in" in r.out and r.rc == 0)
        if not res.ok and not res.violation:
            raise InfraError("TLC failed on %s (rc %s):\n%s" % (module, r.rc, tail(r.out + r.err)))
        if count:
            self.states += res.distinct
            self.transitions += res.generated
        shutil.rmtree(meta, ignore_errors=True)
        return res

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of the design model itself; any violation there is an
        error of the specification, not of the code."""
        t = time.time()
        res = self.tlc(module, cfg=cfg, **kw)
        if res.violation:
            raise InfraError("design model %s violates its own property: %s" % (cfg or module, res.violation))
        self.models.append({"model": cfg or module + ".cfg", "distinct": res.distinct,
                            "generated": res.generated, "wall_s": round(time.time() - t, 1)})
        self.log("model %s: %d distinct states, %d transitions" % (cfg or module, res.distinct, res.generated))
        return res

    def judge(self, module, cases, cfg=None, **kw):
        t0 = time.time()
        try:
            return self._judge(module, cases, cfg=cfg, **kw)
        finally:
            self.t_tlc = getattr(self, "t_tlc", 0) + time.time() - t0
            self.notes["tlc_judging_s"] = round(self.t_tlc, 1)

    def _judge(self, module, cases, cfg=None, **kw):
        """Batch conformance: TLC decides every recorded observation in `cases`
        (a list of JSON values); returns {index: row} for the rejected ones."""
        if not cases:
            return {}
        res = self.tlc(module, cases=cases, cfg=cfg, **kw)
        if res.violation:
            raise InfraError("conformance module %s stopped: %s\n%s" % (module, res.violation, tail(res.raw)))
        bad, done = {}, 0
        for row in res.rows:
            if row.get("done"):
                done += 1
                if row.get("na"):
                    self.notes["not_applicable_cases"] = self.notes.get("not_applicable_cases", 0) + 1
                if not row["ok"]:
                    bad[row["i"] - 1] = row
        if done != len(cases):
            raise InfraError("%s judged %d of %d cases\n%s" % (module, done, len(cases), tail(res.raw)))
        self.traces += len(cases)
        return bad

    # ------------------------------------------------------------- outcomes
    def violation(self, what, replay):
        """Records a violation that has been reproduced on the real code."""
        d = os.path.join(VERIF, "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        blob = json.dumps(replay, indent=1, sort_keys=True, default=str)
        p = os.path.join(d, hashlib.sha256(blob.encode()).hexdigest()[:12] + ".json")
        with open(p, "w") as f:
            f.write(blob)
        self.violations.append((what, p))
        self.log("VIOLATED:", what)

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def finding(self, key, what):
        """A known, recorded defect still shows."""
        self.known_hit.append(key)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)

    def finish(self, coverage=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"], "models": self.models}
        cov.update(self.notes)
        cov.update(coverage or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            for what, p in self.violations[:20]:
                print("  " + what)
                print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            sys.exit(1)
        self.log("ok: %d observations validated, %d states" % (self.traces, self.states))
        sys.exit(0)


def tail(s, n=3000):
    return s[-n:]


def load_known(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        data = json.load(f)
    return {e["key"]: e for e in data.get("known", []) if e["property"] == prop}


def main(fn, prop, level="model_checking"):
    chk = Check(prop, level)
    try:
        fn(chk)
        chk.finish()
    except SystemExit:
        raise
    except InfraError as e:
        print("ERROR of the check %s: %s" % (prop, e), flush=True)
        sys.exit(2)
    except BaseException:
        traceback.print_exc()
        print("ERROR of the check %s" % prop, flush=True)
        sys.exit(2)


def batch_check(chk, module, gen, observe, n, label="case", cfg=None, batch=None, reproduce=True):
    """gen(rng, k) -> case (JSON-able, self-contained); observe(chk, cases) -> list of
    JSON observations for TLC (None = not applicable); rejected ones are run again
    from scratch before they count."""
    if chk.args.replay:
        with open(chk.args.replay) as f:
            rep = json.load(f)
        case = rep["case"]
        obs = observe(chk, [case])
        bad = chk.judge(module, obs, cfg=cfg)
        print(json.dumps(obs[0], indent=1)[:6000])
        if bad:
            print("rejected:", json.dumps(bad[0]))
            chk.violation("replayed: " + json.dumps(bad[0])[:300], {"case": case, "obs": obs[0], "verdict": bad[0]})
        return
    n = chk.args.n or n
    batch = batch or n
    done = 0
    while done < n:
        k = min(batch, n - done)
        cases = [gen(chk.rng, done + j) for j in range(k)]
        obs = observe(chk, cases)
        idx = [i for i, o in enumerate(obs) if o is not None]
        if not idx:
            raise InfraError("no observation could be made")
        bad = chk.judge(module, [obs[i] for i in idx], cfg=cfg)
        for i in idx[:2]:
            chk.sample({"case": shorten(cases[i]), "obs": shorten(obs[i])})
        if bad:
            sel = [idx[b] for b in sorted(bad)][:6]
            for _ in range(6):
                again = observe(chk, [cases[i] for i in sel]) if reproduce else [obs[i] for i in sel]
                bad2 = chk.judge(module, again, cfg=cfg)
                if bad2:
                    break
            for j, i in enumerate(sel):
                if j in bad2:
                    chk.violation("%s %d: %s" % (label, done + i, json.dumps(bad2[j])[:600]),
                                  {"case": cases[i], "obs": again[j], "verdict": bad2[j]})
            if not bad2 and len(bad):
                raise InfraError("a rejected observation could not be reproduced: " + json.dumps(list(bad.values())[0])[:800])
        done += k
        chk.log("%d/%d %ss judged, %d rejected" % (done, n, label, len(bad)))
        if chk.violations or chk.left() < 0:
            break
    chk.notes["cases"] = chk.notes.get("cases", 0) + done


def probes(chk, module, observe, cases, cfg=None):
    """cases: {key: (what, case)}. What fails and is listed in KNOWN_FINDINGS.json under
    its key is a known finding, what fails and is not listed a violation."""
    if chk.args.replay or not cases:
        return
    keys = sorted(cases)
    obs = observe(chk, [cases[k][1] for k in keys])
    bad = chk.judge(module, obs, cfg=cfg)
    for j, k in enumerate(keys):
        if j in bad:
            if k in chk.known:
                chk.finding(k, cases[k][0])
            else:
                chk.violation("%s: %s" % (cases[k][0], json.dumps(bad[j])[:500]), {"case": cases[k][1], "obs": obs[j], "verdict": bad[j]})
    chk.notes["probes"] = len(keys)


def shorten(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + "..."


def tla_str(s):
    return s
