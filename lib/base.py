"""Plumbing shared by all checks: building and running the harness, running
TLC, reporting.  Nothing here decides a property."""
import json, os, re, subprocess, sys, time, shutil, resource, tempfile, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RNG_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.environ.get("RNG_TARGET", os.path.join(VERIF, "target"))
WORK = os.environ.get("RNG_WORK", os.path.join(VERIF, "work"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


# seconds which TLC may take for one set of cases
TLC_LIMIT = 2400


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + os.path.expanduser("~/.cargo/bin")
    return e


def build():
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("relaxng-", "rngconf-")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bins"], cwd=os.path.join(VERIF, "harness"),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise ToolError("the harness does not build against /repo")
    return os.path.join(TARGET, "debug", "rngconf")


def build_tool():
    """the command-line tool, built in its own workspace; returns its path"""
    tgt = os.path.join(TARGET, "tool")
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("relaxng-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    e = env()
    e["CARGO_TARGET_DIR"] = tgt
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", "relaxng-tool", "--bins"], cwd=REPO,
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise ToolError("the command-line tool does not build")
    return os.path.join(tgt, "debug", "rng")


def workdir(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# ---- harness -----------------------------------------------------------------

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_cases(cases, wd, limit_ms=20000, jobs=None, maxcrash=400):
    """cases: list of dicts with unique "id".  Returns id -> result.  A case that
    kills the process gets {"crash": ...}, one that does not end {"timeout": true}."""
    exe = os.path.join(TARGET, "debug", "rngconf")
    jobs = jobs or NCPU
    n = len(cases)
    chunks = [cases[i::jobs] for i in range(jobs)]
    chunks = [c for c in chunks if c]
    results = {}
    state = []
    for k, ch in enumerate(chunks):
        inp = os.path.join(wd, "cases%d.ndjson" % k)
        with open(inp, "w") as f:
            for c in ch:
                f.write(json.dumps(c) + "\n")
        state.append({"k": k, "inp": inp, "n": len(ch), "ids": [c["id"] for c in ch], "done": 0, "part": 0, "p": None, "crashes": 0})

    def start(s):
        out = os.path.join(wd, "out%d.%d.ndjson" % (s["k"], s["part"]))
        err = os.path.join(wd, "err%d.%d.txt" % (s["k"], s["part"]))
        open(out, "w").close()
        ef = open(err, "ab")
        s["out"] = out
        s["p"] = subprocess.Popen([exe, s["inp"], out, err, str(s["done"]), str(limit_ms)],
                                  stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL,
                                  env=env(), preexec_fn=_limits)
        ef.close()

    for s in state:
        start(s)
    active = list(state)
    while active:
        for s in list(active):
            if s["p"].poll() is None:
                continue
            with open(s["out"], encoding="utf-8", errors="replace") as f:
                lines = f.read().split("\n")
            got = 0
            for ln in lines:
                if not ln:
                    continue
                try:
                    r = json.loads(ln)
                except ValueError:
                    continue
                results[r["id"]] = r
                got += 1
            s["done"] += got
            if s["done"] < s["n"]:
                rc = s["p"].returncode
                if got and rc == 3 and lines and any('"timeout"' in x for x in lines[-3:]):
                    pass
                else:
                    cid = s["ids"][s["done"]]
                    results[cid] = {"id": cid, "crash": "process ended with status %s" % rc}
                    s["done"] += 1
                    s["crashes"] += 1
                if s["crashes"] > maxcrash:
                    # enough has been seen
                    for cid in s["ids"][s["done"]:]:
                        results[cid] = {"id": cid, "crash": "not run, after many crashes"}
                    s["done"] = s["n"]
                s["part"] += 1
                if s["done"] < s["n"]:
                    start(s)
                    continue
            active.remove(s)
        time.sleep(0.01)
    if len(results) != n:
        raise ToolError("harness lost results: %d of %d" % (len(results), n))
    return results


# ---- TLC -----------------------------------------------------------------------

def tlc(module, wd, envv=None, cfg=None, workers=None, heap="6g", timeout=None, extra=(), keep=False):
    """Run TLC on spec/<module>.tla; returns dict(out, states, distinct, marks, ok)."""
    e = env()
    e.update({k: str(v) for k, v in (envv or {}).items()})
    timeout = timeout or TLC_LIMIT
    meta = tempfile.mkdtemp(prefix="tlc", dir=wd)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers or NCPU), "-metadir", meta, "-config", cfg or (module + ".cfg"),
           "-noGenerateSpecTE", *extra, module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        out, undecided = p.stdout, False
    except subprocess.TimeoutExpired as e:
        # what has been judged so far stands; the rest is undecided, which the evidence tells
        out, undecided = (e.stdout or b"").decode("utf-8", "replace") if isinstance(e.stdout, bytes) else e.stdout or "", True
        print("note: TLC ran out of time on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    ms = re.findall(r"(\d+) states generated", out)
    if undecided:
        # the last line may be incomplete
        out = out[:out.rfind("\n") + 1]
        return {"out": out, "rc": -1, "wall": time.time() - t, "states": 0, "distinct": 0, "marks": marks(out), "violated": False, "undecided": True}
    r = {"out": out, "undecided": False, "rc": p.returncode, "wall": time.time() - t,
         "states": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
         "marks": marks(out)}
    if "Model checking completed. No error has been found" not in out and "-simulate" not in extra:
        if not re.search(r"Error: (Invariant|Action property|Temporal|Assumption)", out):
            raise ToolError("TLC failed on %s:\n%s" % (module, out[-6000:] if "rror:" not in out else out[out.index("rror:") - 2:][:4000]))
        r["violated"] = True
    else:
        r["violated"] = False
    return r


def marks(out):
    """the << "@@NAME", ... >> values printed by the specification"""
    res, cur = [], None
    for ln in out.split("\n"):
        if cur is None:
            if ln.startswith("<<") and '"@@' in ln[:12]:
                cur = ln
            elif re.match(r'<<\s*$', ln):
                cur = ln
            else:
                continue
        else:
            cur += " " + ln.strip()
        if cur.count("<<") <= cur.count(">>") and balanced(cur):
            if '"@@' in cur[:14]:
                res.append(cur)
            cur = None
        elif len(cur) > 200000:
            cur = None
    return res


def balanced(s):
    s = re.sub(r'"(\\.|[^"\\])*"', '""', s)
    return s.count("<<") == s.count(">>") and s.count("{") == s.count("}") and s.count("[") == s.count("]")


def ndjson(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x) + "\n")


# ---- reporting -----------------------------------------------------------------

class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations, self.known = [], []
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.notes = []
        self.extra = {}
        self.kf = load_known()

    def add_tlc(self, r):
        self.states += r["distinct"]
        self.transitions += r["states"]
        if r["undecided"]:
            self.extra["undecided_runs"] = self.extra.get("undecided_runs", 0) + 1

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, what, replay):
        """replay: a JSON-able description sufficient to reproduce"""
        key = finding_key(what, replay)
        for k in self.kf:
            if k["property"] == self.pid and k["key"] and k["key"] == key:
                if key not in self.known:
                    self.known.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        self.violations.append({"what": what, "replay": replay, "key": key})

    def finish(self, level, assumptions):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        rdir = os.path.join(WORK, "replay")
        os.makedirs(rdir, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "samples": self.samples[:12], **self.extra},
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n in self.notes:
            print(n)
        print("%s: %d traces checked, %d states, %.1fs" % (self.pid, self.validated, self.states, ev["wall_s"]))
        if self.violations:
            for i, v in enumerate(self.violations[:5]):
                path = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  " + str(v["what"])[:400].replace("\n", " "))
            if len(self.violations) > 5:
                print("  ... and %d more" % (len(self.violations) - 5))
            return 1
        return 0


def finding_key(what, replay):
    core = replay.get("key") if isinstance(replay, dict) else None
    if core is None:
        return None
    return hashlib.sha256(json.dumps(core, sort_keys=True).encode()).hexdigest()[:16]


def load_known():
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
            if m:
                res.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return res
