"""Framework of the checks: builds the code under test, runs TLC on the
specifications, replays the behaviours it generates in the real code, validates
recorded traces against the specifications, and writes evidence."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HD_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(2, min(8, os.cpu_count() or 2))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.pop("RUSTFLAGS", None)
    return env


def _locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _run_cargo(args, env, cwd):
    p = subprocess.run(args, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("build failed: %s\n%s" % (" ".join(args), p.stdout[-4000:]))


def build_harness():
    """The replay harness, linked with the crate in /repo's working tree."""
    with _locked("harness"):
        env = cargo_env()
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        env["RUSTFLAGS"] = "--cfg hongdown_verif"
        _run_cargo(["cargo", "build", "--offline", "--locked", "-q"], env, os.path.join(ROOT, "harness"))
    return os.path.join(BUILD, "target", "debug", "hd-harness")


def build_cli():
    """The command line program of /repo's working tree."""
    with _locked("cli"):
        env = cargo_env()
        _run_cargo(["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                    "--target-dir", os.path.join(BUILD, "cli"), "--bin", "hongdown"], env, ROOT)
    return os.path.join(BUILD, "cli", "debug", "hongdown")


_HARNESS = None


def harness(reqs, threads=JOBS, limit=30, env=None):
    """Run requests through the real code; results in order."""
    global _HARNESS
    if _HARNESS is None:
        _HARNESS = build_harness()
    if not reqs:
        return []
    e = dict(os.environ, HD_THREADS=str(threads), HD_LIMIT_S=str(limit))
    e.update(env or {})
    data = "".join(json.dumps(r) + "\n" for r in reqs)
    p = subprocess.run([_HARNESS], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    out = [l for l in p.stdout.decode().split("\n") if l]
    if p.returncode or len(out) != len(reqs):
        # the process died (stack overflow, abort): find the culprit one by one
        if len(reqs) == 1:
            return [{"crash": p.returncode, "stderr": p.stderr.decode(errors="replace")[-500:]}]
        h = len(reqs) // 2
        return harness(reqs[:h], threads, limit, env) + harness(reqs[h:], threads, limit, env)
    return [json.loads(l) for l in out]


# ---------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.records, self.states, self.distinct, self.traces, self.wall = [], 0, 0, 0, 0.0
        self.error = None


def _cpu(pid):
    """Processor time of one of our processes, in ticks."""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12])
    except (OSError, IndexError, ValueError):
        return -1


def _run_tlc(cmd, env, out, timeout, idle=25):
    """Run TLC; TLC may lose a wakeup between its threads and stop working, and is started again then."""
    end = time.time() + timeout
    while True:
        with open(out, "wb") as f:
            p = subprocess.Popen(cmd, cwd=SPEC, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT)
        cpu, since, wait = -1, time.time(), 0.01
        try:
            while True:
                try:
                    p.wait(wait)
                    return p.returncode
                except subprocess.TimeoutExpired:
                    wait = min(2 * wait, 0.5)
                now = _cpu(p.pid)
                if now > cpu + 2:
                    cpu, since = now, time.time()
                if time.time() > end:
                    raise subprocess.TimeoutExpired(cmd, timeout)
                if time.time() - since > idle:
                    break
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()


def _tlc_one(module, cfg, simulate, seed, depth, timeout, extra_env, heap):
    work = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(BUILD, "tmp"))
    r = TlcResult()
    t0 = time.time()
    try:
        cfgp = os.path.join(work, "run.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC", "-Xmx%s" % heap, "-Xss128m", "-XX:TieredStopAtLevel=%d" % (4 if TIER == "thorough" else 1),
               "-Djava.io.tmpdir=" + work, "-cp", TLA, "tlc2.TLC", "-workers", "1", "-metadir", os.path.join(work, "md"),
               "-config", cfgp, "-noGenerateSpecTE", "-nowarning", "-checkpoint", "0", "-lncheck", "final"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth)]
        cmd += ["-seed", str(seed), "-fp", "0", "-deadlock", os.path.join(SPEC, module + ".tla")]
        env = dict(os.environ)
        env.update(extra_env or {})
        log = os.path.join(work, "out")
        code = _run_tlc(cmd, env, log, timeout)
        other = []
        with open(log, errors="replace") as f:
            printed = f.read()
        for line in printed.split("\n"):
            if line.startswith('"{'):
                r.records.append(json.loads(json.loads(line)))
            else:
                other.append(line)
        text = "\n".join(other)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if m:
            r.states, r.distinct = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", text)
        if m:
            r.states = int(m.group(1).replace(",", ""))
        m = re.findall(r"([\d,]+) traces generated", text)
        if m:
            r.traces = int(m[-1].replace(",", ""))
        if code != 0:
            r.error = "\n".join(re.findall(r"^Error:.*", text, re.M)[:5]) + "\n" + text[-4000:]
    except subprocess.TimeoutExpired:
        r.error = "TLC timed out after %s s on %s" % (timeout, module)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    r.wall = time.time() - t0
    return r


def mkcfg(constants=None, invariants=(), properties=(), spec="Spec", extra=""):
    s = "SPECIFICATION %s\n" % spec
    for k, v in (constants or {}).items():
        s += "CONSTANT %s %s\n" % (k, v if v.startswith("<-") else "= " + v)
    for i in invariants:
        s += "INVARIANT %s\n" % i
    for i in properties:
        s += "PROPERTY %s\n" % i
    return s + "CHECK_DEADLOCK FALSE\n" + extra


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def tlc_jobs(jobs, timeout=800):
    """Run TLC jobs in parallel.  A job is dict(module, cfg, simulate=0, seed, depth, env)."""
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(_tlc_one, j["module"], j["cfg"], j.get("simulate", 0), j.get("seed", SEED),
                        j.get("depth", 60), j.get("timeout", timeout), j.get("env"), j.get("heap", "2500m")) for j in jobs]
        return [f.result() for f in fs]


# placeholders for characters TLC strings cannot hold (or display) reliably
SUBST = {
    "{ldq}": "\u201c", "{rdq}": "\u201d", "{lsq}": "\u2018", "{rsq}": "\u2019", "{ell}": "\u2026",
    "{em}": "\u2014", "{en}": "\u2013", "{W}": "\u6f22", "{K}": "\uac00", "{E}": "\U0001f600", "{A}": "\u00e9",
    "{C}": "e\u0301", "{Z}": "\u200b", "{N}": "\u00a0", "{T}": "\t", "{NUL}": "\0", "{Ga}": "\u03b1", "{U}": "\u00c9", "{CR}": "\r",
    "{BS}": "\\", "{Q}": '"', "{F}": "\ufffd", "{LS}": "\u2028", "{FW}": "\uff0c", "{copy}": "\u00a9", "{ae}": "\u00e4", "{ZWJ}": "\u200d", "{oint}": "\u2233", "{NET}": "\u2242\u0338",
    "{sharp}": "\u00df", "{dotI}": "\u0130", "{fi}": "\ufb01", "{Dz}": "\u01c5", "{apos_n}": "\u0149", "{sigma}": "\u03a3", "{BOM}": "\ufeff", "{rtl}": "\u202e\u05d0", "{zalgo}": "a" + "\u0301\u0323" * 20,
    "{flag}": "\U0001f1e9\U0001f1ea", "{tone}": "\U0001f44d\U0001f3fd", "{ctl}": "\x01", "{big}": "longword" * 40,
}
_SUB_RE = re.compile("|".join(re.escape(k) for k in SUBST))


def unph(v):
    """Replace placeholders in a value which came from TLC."""
    if isinstance(v, str):
        return _SUB_RE.sub(lambda m: SUBST[m.group(0)], v)
    if isinstance(v, list):
        return [unph(x) for x in v]
    if isinstance(v, dict):
        return {unph(k): unph(x) for k, x in v.items()}
    return v


# -------------------------------------------------------------------- checks

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known_hits = [], [], []
        self.notes = {}
        self.assumptions = []
        self.seen = set()
        self.nontrivial = 0
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            self.known = [k for k in json.load(f)["findings"] if pid in k["properties"]]

    # -- TLC
    def tlc(self, jobs, timeout=800):
        """Model-check / simulate; a violated invariant of a specification is an error of the check."""
        recs = []
        for j, r in zip(jobs, tlc_jobs(jobs, timeout)):
            if r.error:
                raise ToolError("TLC failed on %s:\n%s" % (j["module"], r.error))
            self.states += r.distinct or r.states
            self.transitions += r.states
            n = self.notes.setdefault("tlc", {}).setdefault(j["module"], {"states": 0, "behaviours": 0, "runs": 0})
            n["states"] += r.states
            n["behaviours"] += len(r.records)
            n["runs"] += 1
            recs += r.records
        return unph(recs)

    # -- results
    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(json.loads(json.dumps(x))if len(json.dumps(x)) < 3000 else str(x)[:3000])

    def violation(self, what, **data):
        rec = dict(property=self.pid, what=what, **data)
        for k in self.known:
            if k.get("src") is not None and k["src"] == data.get("src") and (k.get("opts") or {}) == (data.get("opts") or {}):
                self.known_hits.append(k["id"])
                return
        self.violations.append(rec)

    def finish(self, extra=None):
        vdir = os.path.join(BUILD, "violations", self.pid)
        lines = []
        if self.violations:
            os.makedirs(vdir, exist_ok=True)
            for v in self.violations[:5]:
                h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]
                path = os.path.join(vdir, h + ".json")
                with open(path, "w") as f:
                    json.dump(v, f, indent=1, ensure_ascii=False)
                lines.append("VIOLATION property=%s replay=%s" % (self.pid, path))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"])) if k["id"] in self.known_hits else None
        for v in self.violations[:5]:
            print("  %s" % json.dumps(v, ensure_ascii=False)[:1500])
        for l in lines:
            print(l)
        print("%s: %s: %d states, %d behaviours/traces bound to the code, %d violations, %.1f s" % (
            self.pid, TIER, self.states, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def lines_width(s):
    return s
