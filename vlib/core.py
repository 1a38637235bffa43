"""Check plumbing: scratch space, process running, verdicts, evidence, known findings."""
import atexit, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = min(8, os.cpu_count() or 4)
KNOWN = os.path.join(VERIF, "known-findings.txt")

os.environ["LC_ALL"] = "C.UTF-8"
for _v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "C_INCLUDE_PATH", "CPLUS_INCLUDE_PATH", "LD_PRELOAD",
           "ASAN_OPTIONS", "UBSAN_OPTIONS", "LSAN_OPTIONS", "LD_LIBRARY_PATH"):
    os.environ.pop(_v, None)


class HarnessError(Exception):
    """The check itself could not do its work: neither a pass nor a violation."""


class Result:
    __slots__ = ("rc", "out", "err", "timeout", "cmd")

    def __init__(self, rc, out, err, timeout, cmd):
        self.rc, self.out, self.err, self.timeout, self.cmd = rc, out, err, timeout, cmd

    @property
    def signal(self):
        return -self.rc if self.rc is not None and self.rc < 0 else 0


def run(cmd, cwd=None, env=None, timeout=300, stdin=None, user_env=None, preexec=None, text=True):
    """Run a command (list) in its own process group, with a watchdog; never raises on failure."""
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=preexec)
    except OSError as ex:
        raise HarnessError("cannot start %r: %s" % (cmd[0], ex))
    to = False
    try:
        o, r = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, r = p.communicate()
    if text:
        o, r = o.decode("utf-8", "replace"), r.decode("utf-8", "replace")
    return Result(p.returncode, o, r, to, cmd)


def run2(cmd, **kw):
    """Like run, but a watchdog firing is retried once with twice the time, so only a reproduced hang counts."""
    r = run(cmd, **kw)
    if r.timeout:
        kw["timeout"] = kw.get("timeout", 300) * 2
        r = run(cmd, **kw)
    return r


def pmap(fn, items, jobs=JOBS):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(fn, items))


SAN_RE = re.compile(r"ERROR: (?:Address|Leak|Thread|Memory)Sanitizer|runtime error:|WARNING: ThreadSanitizer|LeakSanitizer: detected")
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:handle_abort=1:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "LSAN_OPTIONS": "exitcode=97",
}


def load_known():
    """known-findings.txt: 'finding: property=<id> key=<key> <what>' and 'fixed: property=<id> <commit> <what>'"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.lock = threading.RLock()
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="emv-%s-" % pid, dir="/tmp")
        os.chmod(self.tmp, 0o755)
        self.keep = bool(os.environ.get("VERIF_KEEP"))
        atexit.register(self._clean)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
        self.rng = random.Random("%s/%d/%s" % (pid, self.seed, self.tier))
        self.evals = 0
        self.distinct = set()
        self.cov = {}
        self.samples = []
        self.violations = []
        self.known = load_known()
        self.known_hit = {}
        self.rule = ""
        self.assumptions = []
        self.nrep = 0

    def _clean(self):
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)

    # --- scratch -------------------------------------------------------
    def dir(self, name):
        d = os.path.join(self.tmp, name)
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # --- bookkeeping ---------------------------------------------------
    def saw(self, key, n=1):
        """count one evaluated case; key identifies a distinct non-trivial case"""
        self.evals += n
        if key is not None:
            self.distinct.add(key if isinstance(key, (str, int)) else hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, files=None, dirs=None):
        with self.lock:
            return self._violation(key, what, files, dirs)

    def _violation(self, key, what, files=None, dirs=None):
        """key: stable identification of the failing input/site. Listed findings are reported as such only."""
        if (self.pid, key) in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return False
        if any(k == key for k, _, _ in self.violations):
            return False
        rep = None
        if len(self.violations) < 10:
            base = os.path.join(VERIF, "replay")
            os.makedirs(base, exist_ok=True)
            rep = os.path.join(base, "%s-%s" % (self.pid, hashlib.md5(key.encode()).hexdigest()[:10]))
            shutil.rmtree(rep, ignore_errors=True)
            os.makedirs(rep)
            with open(os.path.join(rep, "README.txt"), "w") as f:
                f.write("property %s violated\nkey: %s\nseed: %d tier: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 /verif/checks/run.py %s\n\n%s\n"
                        % (self.pid, key, self.seed, self.tier, self.seed, self.tier, self.pid, what))
            for name, content in (files or {}).items():
                p = os.path.join(rep, name.replace("/", "_"))
                with open(p, "wb") as f:
                    f.write(content if isinstance(content, bytes) else str(content).encode())
            for d in dirs or []:
                try:
                    shutil.copytree(d, os.path.join(rep, os.path.basename(d)), symlinks=True,
                                    ignore=lambda dd, ns: [n for n in ns if os.path.getsize(os.path.join(dd, n)) > 2000000
                                                           if os.path.isfile(os.path.join(dd, n))])
                except Exception:
                    pass
        self.violations.append((key, what, rep))
        self.log("violation", key, "::", what.splitlines()[0][:400] if what else "")
        return True

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov["evaluations"] = self.evals
        cov["distinct_nontrivial"] = len(self.distinct)
        cov["rule"] = self.rule
        cov["samples"] = self.samples or ["none"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, self.known[(self.pid, k)]))
        for key, what, rep in self.violations:
            print("---- %s\n%s" % (key, what[:3000]))
        for key, what, rep in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
        print("%s: %d evaluations, %d distinct, %d violations, %.1fs" % (self.pid, self.evals, len(self.distinct), len(self.violations), wall))
        sys.stdout.flush()
        if self.violations:
            sys.exit(1)
        if self.evals == 0:
            print("harness error: nothing was observed", file=sys.stderr)
            sys.exit(2)
        sys.exit(0)


def main(pid, fn, level="exploration"):
    c = Check(pid, level)
    try:
        fn(c)
    except HarnessError as ex:
        if c.violations:
            c.log("harness error after violations were found:", str(ex)[:2000])
            c.finish()
        print("HARNESS ERROR %s: %s" % (pid, str(ex)[:6000]), file=sys.stderr, flush=True)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if c.violations:
            c.finish()
        sys.exit(2)
    c.finish()
