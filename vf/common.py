"""Building the harness, running TLC, reporting."""
import fcntl, json, os, re, shutil, subprocess, sys, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPLAYS = os.path.join(ROOT, "replays")
FINDINGS = os.path.join(ROOT, "known-findings.txt")
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, record):
        Exception.__init__(self, what)
        self.what, self.record = what, record


class Run:
    """One run of one check: scratch space, counters, evidence."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(ROOT, "scratch", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases_replayed": 0, "models": {}, "samples": []}
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.dir, name)

    def sample(self, s, limit=8):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def close(self, violations):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        shutil.rmtree(self.dir, ignore_errors=True)


def toolchain_env():
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = "1.98.1"
    env["RUSTFLAGS"] = "--cfg pbrtrs_verif"
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("CARGO_BUILD_TARGET", None)
    return env


def build(bin_, f64=False, features=()):
    """Builds a driver from /repo's working tree; returns its path."""
    target = os.path.join(ROOT, "target", "f64" if f64 else "f32")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_in(target, bin_, f64, features)


def build_in(target, bin_, f64, features):
    # never trust file times of the code under test
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("pbrtrs-") or d.startswith("harness-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = toolchain_env()
    env["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--bin", bin_]
    features = list(features) + (["f64"] if f64 else [])
    if features:
        cmd += ["--features", ",".join(features)]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (bin_, p.stdout[-4000:]))
    return os.path.join(target, "debug", bin_)


def tlc(run, module, cfg, files=(), env=None, timeout=3000, heap="8g", workers=CPUS):
    """Runs TLC on spec/<module>.tla (or spec/mc/<module>.tla); returns (output path, stats, ok)."""
    d = run.path("tlc-%s-%d" % (module, len(run.cov["models"])))
    os.makedirs(d)
    for sub in ("mc", "geom", ""):
        src = os.path.join(SPEC, sub, module + ".tla")
        if os.path.exists(src):
            break
    shutil.copy(src, d)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    out = os.path.join(d, "out.txt")
    e = dict(os.environ)
    lib = os.pathsep.join([SPEC, os.path.join(SPEC, "geom"), os.path.join(SPEC, "mc")])
    e["JAVA_TOOL_OPTIONS"] = "-DTLA-Library=%s -Xss64m -Xmx%s -Djava.io.tmpdir=%s" % (lib, heap, d)
    e.update(env or {})
    t = time.time()
    with open(out, "w") as f:
        try:
            p = subprocess.run(["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", module + ".cfg", module + ".tla"],
                               cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s took more than %d s" % (module, timeout))
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    states = trans = 0
    ok = False
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"CASE'):
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct states found, 0 states left", line)
            if m:
                trans, states = int(m.group(1)), int(m.group(2))
            if "No error has been found" in line:
                ok = True
    ok = ok and p.returncode == 0
    name = module if module not in run.cov["models"] else module + "#%d" % len(run.cov["models"])
    run.cov["models"][name] = {"states": states, "transitions": trans, "seconds": round(time.time() - t, 1)}
    run.cov["states"] += states
    run.cov["transitions"] += trans
    return out, ok


def tlc_errors(out):
    keep = []
    with open(out, errors="replace") as f:
        for line in f:
            if not line.startswith('"CASE') and not line.startswith("Linting") and not line.startswith("Parsing"):
                keep.append(line.rstrip())
    return "\n".join(keep)[-3000:]


def spec_failed(module, out):
    raise ToolError("the specification %s does not satisfy its own properties:\n%s" % (module, tlc_errors(out)))


def drive(cmd, timeout=1500):
    """Runs a driver; returns (returncode, stdout)."""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 42, "", "timeout"
    return p.returncode, p.stdout, p.stderr


def progress(path):
    try:
        return int(open(path).read().strip() or "0")
    except (OSError, ValueError):
        return -1


def nth_case(out, i):
    with open(out, errors="replace") as f:
        k = -1
        for line in f:
            if line.startswith('"CASE '):
                k += 1
                if k == i:
                    return json.loads(json.loads(line)[5:])
    return None


def died(rc, stderr):
    if rc == 42:
        return "did not terminate"
    if rc < 0:
        return "killed by signal %d (%s)" % (-rc, (stderr or "").strip()[-200:])
    return None


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> <what>`; `fixed:` lines suppress nothing."""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def case_key(record):
    """Identifies a failing case by its input."""
    inp = record.get("text", record.get("input", record.get("recipe", record.get("case"))))
    return hashlib.sha1(json.dumps(inp, sort_keys=True).encode()).hexdigest()[:16]


def report(prop, what, record):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, case_key(record)))
    with open(path, "w") as f:
        json.dump({"property": prop, "what": what, "record": record}, f, indent=1)
    print("property %s is broken: %s" % (prop, what[:1500]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
