"""Shared plumbing: paths, building EasyMock from /repo, running things, TLC, evidence and verdicts."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself could not do its work (exit 2: neither verdict)."""


class Finding(Exception):
    """A deviation of the code under test discovered outside a trace comparison."""

    def __init__(self, what, files=()):
        super().__init__(what)
        self.what = what
        self.files = list(files)


_hung = []


def patience(cmd, timeout):
    """The generator takes parts of a second: not a minute, and once it hung, not again that long."""
    if os.path.basename(str(cmd[0])) == "EasyMockGenerate":
        return min(timeout, 60 if len(_hung) < 3 else 5)
    return timeout


def run(cmd, cwd=None, timeout=300, env=None, input=None, binary=False, soft=True, **kw):
    """What doesn't end in time ends with 124 (soft) or is an exception."""
    e = dict(os.environ)
    e["LC_ALL"] = "C.UTF-8"
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=patience(cmd, timeout), env=e, input=input, capture_output=True, **kw)
    except subprocess.TimeoutExpired as x:
        if not soft:
            raise
        _hung.append(cmd)
        p = subprocess.CompletedProcess(cmd, 124, x.stdout or b"", (x.stderr or b"") + b"\nno end within %d s" % x.timeout)
    if not binary:
        p.stdout = p.stdout.decode("utf-8", "replace")
        p.stderr = p.stderr.decode("utf-8", "replace")
    return p


# --------------------------------------------------------------------------- building /repo
def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        if root == REPO:
            dirs[:] = [d for d in dirs if d not in ("_build", ".git", "test", "docs")]
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            try:
                with open(p, "rb") as fd:
                    h.update(fd.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()[:16]


class Tree:
    """EasyMock as built from the current working tree of /repo."""

    def __init__(self, asan=False):
        self.hash = tree_hash()
        tag = self.hash + ("-asan" if asan else "")
        self.dir = os.path.join(BUILD, "tree-" + tag)
        self.asan = asan
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(self.dir, "ok")):
                self._build()
            os.utime(os.path.join(self.dir, "ok"))
            self._prune()
        self.gen = os.path.join(self.dir, "b", "EasyMockGenerate")
        self.fwdir = os.path.join(self.dir, "b", "src/easyMockFramework/src")
        self.libs = os.path.join(self.dir, "b")
        self.inc = os.path.join(REPO, "src/easyMockFramework/include")
        self.geninc = os.path.join(REPO, "src/easyMockGenerate/include")

    def _prune(self):
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("tree-")]
        ds = [d for d in ds if d != self.dir and os.path.exists(os.path.join(d, "ok"))]
        ds.sort(key=lambda d: os.path.getmtime(os.path.join(d, "ok")))
        for d in ds[:-3]:
            shutil.rmtree(d, ignore_errors=True)

    def _build(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        b = os.path.join(self.dir, "b")
        flags = "-O1"
        if self.asan:
            flags = "-O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
        cfg = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
               "-DCMAKE_BUILD_TYPE=Release", "-DLLVM_DEFAULT_VERSION=14", "-DLLVM_PATH=/usr/lib/llvm-14",
               "-DCMAKE_CXX_FLAGS_RELEASE=" + flags, "-DCMAKE_C_FLAGS_RELEASE=" + flags]
        p = run(cfg, timeout=300, env={"CC": "gcc", "CXX": "g++"})
        if p.returncode:
            raise Broken("cmake failed:\n" + p.stdout[-2000:] + p.stderr[-2000:])
        targets = ["EasyMockFramework"] if self.asan else ["EasyMockGenerate", "EasyMockFramework"]
        p = run(["ninja", "-C", b] + targets, timeout=800)
        if p.returncode:
            raise Broken("build of /repo failed:\n" + p.stdout[-4000:])
        open(os.path.join(self.dir, "ok"), "w").close()

    # ------------------------------------------------------------------ using the generator
    def generate(self, args, cwd=None, timeout=120):
        return run([self.gen] + list(args), cwd=cwd, timeout=timeout)


# --------------------------------------------------------------------------- scratch space
_scratch = []


def scratch(name):
    base = os.path.join(BUILD, "work")
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(prefix=name + "-", dir=base)
    _scratch.append(d)
    return d


def cleanup():
    if os.environ.get("VERIF_KEEP"):
        return
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
    _scratch.clear()


# --------------------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap="3g", cfg_text=None, workdir=None):
    """Run TLC; returns (stdout, stats). Raises Broken when TLC itself fails."""
    wd = workdir or scratch("tlc")
    cfgp = os.path.join(SPEC, cfg or module + ".cfg")
    if cfg_text is not None:
        cfgp = os.path.join(wd, module + "-gen.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + wd, "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC, "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE",
           "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    last = None
    for attempt in (1, 2):
        try:
            p = run(cmd, cwd=wd, timeout=timeout, env=env, soft=False)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        out = p.stdout
        if "Finished in" in out and p.returncode == 0:
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
            gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
            return out, {"generated": gen, "distinct": dist, "rc": 0}
        last = out + p.stderr
        # an invariant violated by the specification itself or an evaluation error: see what it says once more
    raise Broken("TLC failed on %s:\n%s" % (module, last[-3000:]))


def tlc_prints(out, tag):
    """The payloads of PrintT("<tag> ...") lines."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            body = line[len(tag) + 2:-1] if line.endswith('"') else line[len(tag) + 2:]
            res.append(body.replace('\\"', '"').replace("\\\\", "\\"))
    return res


# --------------------------------------------------------------------------- verdicts
def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Check:
    def __init__(self, prop, tier, level, seed=SEED):
        self.prop, self.tier, self.level, self.seed = prop, tier, level, seed
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = [k for k in known_findings() if k["property"] == prop and k.get("status") != "fixed"]
        self.known_hit = set()
        self.rng = random.Random("%s/%s/%s" % (prop, tier, seed))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=5):
        l = self.cov.setdefault("samples", [])
        if len(l) < limit:
            l.append(s)

    def violation(self, what, payload=None, files=(), key=None):
        """Record a deviation. key identifies the failing case for the known-findings list."""
        if key is not None:
            for k in self.known:
                if re.fullmatch(k["match"], key):
                    self.known_hit.add(k["id"])
                    return
        d = os.path.join(REPLAYS, "%s-%s-%d" % (self.prop, self.tier, len(self.violations)))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "what.txt"), "w") as f:
            f.write(what + "\n")
        if payload is not None:
            with open(os.path.join(d, "case.json"), "w") as f:
                json.dump(payload, f, indent=1, default=str)
        for p in files:
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(d, os.path.basename(p)), dirs_exist_ok=True)
            elif os.path.exists(p):
                shutil.copy(p, d)
        self.violations.append((what, d))

    def finish(self):
        for k in self.known:
            if k["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        cleanup()
        if self.violations:
            for what, d in self.violations[:5]:
                print(what[:1500])
                print("VIOLATION property=%s replay=%s" % (self.prop, d))
            return 1
        print("OK property=%s tier=%s %.1fs %s" % (self.prop, self.tier, time.time() - self.t0,
              json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float))})))
        return 0
