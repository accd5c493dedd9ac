"""Shared machinery: builds of /repo under sanitizers, process running with
three-valued outcomes, known-findings matching, evidence and VIOLATION lines."""
import hashlib, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, threading, time, atexit
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ORTV_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = max(2, min(8, os.cpu_count() or 2))
TOOLS = ("ort ort-audit ort-audit-json ort-c-header ort-c-manpage ort-c-source "
         "ort-diff ort-javascript ort-json ort-nodejs ort-rust ort-sql "
         "ort-sqldiff ort-xliff").split()
SANFLAGS = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
WORKROOT = os.environ.get("ORTV_WORK", os.path.join(VERIF, ".work"))

BASE_ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": os.environ.get("HOME", "/root"),
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
}


class CannotDecide(Exception):
    """The check could not be carried out (build failure etc.)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- running
class Res:
    __slots__ = ("rc", "out", "err", "timeout", "cmd", "cpu")

    def __init__(self, rc, out, err, timeout, cmd):
        self.rc, self.out, self.err, self.timeout, self.cmd = rc, out, err, timeout, cmd

    @property
    def san(self):
        """A sanitizer report, an abort or a fatal signal, or None."""
        e = self.err if isinstance(self.err, str) else self.err.decode("utf-8", "replace")
        if "AddressSanitizer" in e or "runtime error:" in e or "LeakSanitizer" in e \
                or "UndefinedBehaviorSanitizer" in e:
            return san_key(e)
        if self.rc is not None and self.rc < 0 and not self.timeout:
            tail = e.strip().splitlines()[-1] if e.strip() else ""
            return "signal %d %s" % (-self.rc, tail[:200])
        return None


def san_key(e):
    """Stable key for a sanitizer report: kind and innermost project frame."""
    kind = "report"
    for ln in e.splitlines():
        if "runtime error:" in ln:
            kind = "ub:" + ln.split("runtime error:")[1].strip()
            break
        if "ERROR: AddressSanitizer:" in ln:
            kind = "asan:" + ln.split("ERROR: AddressSanitizer:")[1].split()[0]
            break
        if "ERROR: LeakSanitizer" in ln:
            kind = "leak"
            break
    fr = ""
    for ln in e.splitlines():
        ln = ln.strip()
        if ln.startswith("#") and " in " in ln:
            fn = ln.split(" in ", 1)[1].split()[0]
            if ".c:" in ln and "/sanitizer" not in ln and "interceptors" not in ln and "asan_" not in ln:
                fr = fn
                break
    import re
    kind = re.sub(r"0x[0-9a-f]+|\d+", "N", kind)
    return "%s in %s" % (kind, fr)


def _limits(cpu, mem):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def run(cmd, input=None, cwd=None, env=None, timeout=120, cpu=60, text=True, stdout=None):
    """Run a command.  A wall-clock timeout is retried once by itself, a CPU
    limit (rlimit) is deterministic and reported through .timeout = 'cpu'."""
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    if isinstance(input, str):
        input = input.encode("utf-8", "surrogateescape")
    for attempt in (1, 2):
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=stdout if stdout is not None else subprocess.PIPE,
                             stderr=subprocess.PIPE, cwd=cwd, env=e,
                             preexec_fn=_limits(cpu, None))
        to = None
        try:
            out, err = p.communicate(input, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = "wall"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
        if p.returncode in (-signal.SIGXCPU,):
            to = "cpu"
        if to == "wall" and attempt == 1:
            continue
        break
    if text:
        out = (out or b"").decode("utf-8", "surrogateescape")
        err = (err or b"").decode("utf-8", "replace")
    return Res(p.returncode, out, err, to, cmd)


def pmap(fn, items, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- scratch
_scratch = []


def scratch(prefix="ortv"):
    os.makedirs(WORKROOT, exist_ok=True)
    d = tempfile.mkdtemp(prefix=prefix + "-", dir=WORKROOT)
    _scratch.append(d)
    return d


def _cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


def replay_dir(pid):
    """Where inputs of reported violations are kept."""
    d = os.path.join(VERIF, ".work", "replay", pid)
    os.makedirs(d, exist_ok=True)
    return d


# ---------------------------------------------------------------- builds
def source_files():
    """Every source file of the current tree of /repo (no build products)."""
    r = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode == 0:
        names = [n for n in r.stdout.decode().split("\0") if n]
    else:
        names = []
        for root, ds, fs in os.walk(REPO):
            ds[:] = [d for d in ds if d not in (".git", "node_modules")]
            for f in fs:
                names.append(os.path.relpath(os.path.join(root, f), REPO))
    drop = (".o", ".a", ".old", ".pc")
    keep = []
    for n in names:
        if n.startswith(("regress/", "man/", ".github/", "rust/")) and not n.startswith("regress/regress"):
            continue
        if n in ("config.h", "Makefile.configure", "config.log", "ort-version.h", "ort-paths.h"):
            continue
        if n.endswith(drop) and not n.endswith(".in.pc"):
            continue
        if os.path.isfile(os.path.join(REPO, n)):
            keep.append(n)
    return sorted(set(keep))


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for n in source_files():
        h.update(n.encode() + b"\0")
        with open(os.path.join(REPO, n), "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


_build_lock = threading.Lock()


def build(cc="gcc " + SANFLAGS, cflags="-O1 -g", tag="san", extra_targets=(), prepare=None):
    """Build all tools from /repo's current working tree in a scratch copy.
    Cached by content so that several checks on one tree share a build."""
    with _build_lock:
        hh = tree_hash(cc + cflags + tag + repr(extra_targets))
        dst = os.path.join(WORKROOT, "build-%s-%s" % (tag, hh))
        if os.path.exists(os.path.join(dst, ".done")):
            return dst
        os.makedirs(WORKROOT, exist_ok=True)
        # keep only a few old builds
        olds = sorted((os.path.join(WORKROOT, d) for d in os.listdir(WORKROOT)
                       if d.startswith("build-%s-" % tag)), key=os.path.getmtime)
        for d in olds[:-4]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="mk-", dir=WORKROOT)
        try:
            for n in source_files():
                t = os.path.join(tmp, n)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, n), t)
                shutil.copymode(os.path.join(REPO, n), t)
            if prepare:
                prepare(tmp)
            env = dict(BASE_ENV, CC=cc, CFLAGS=cflags)
            env["ASAN_OPTIONS"] = "detect_leaks=0"
            r = subprocess.run(["sh", "./configure"], cwd=tmp, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CannotDecide("configure failed: " + r.stdout.decode()[-2000:])
            env.pop("CC"), env.pop("CFLAGS")
            r = subprocess.run(["bmake", "-j%d" % JOBS] + TOOLS + ["libort.a"] + list(extra_targets),
                               cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CannotDecide("build failed: " + r.stdout.decode()[-3000:])
            open(os.path.join(tmp, ".done"), "w").close()
            try:
                os.rename(tmp, dst)
            except OSError:
                if not os.path.exists(os.path.join(dst, ".done")):
                    raise
                shutil.rmtree(tmp, ignore_errors=True)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        return dst


def tool(bdir, name):
    return os.path.join(bdir, name)


# ---------------------------------------------------------------- findings
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")


def load_known(pid):
    """Lines: 'known: property=<id> key=<key> :: <what fails>'.
    'fixed:' lines are documentation only and suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN, encoding="utf-8"):
            ln = ln.rstrip("\n")
            if not ln.startswith("known: "):
                continue
            body, _, what = ln[7:].partition(" :: ")
            p, _, key = body.partition(" key=")
            if p.strip() == "property=" + pid:
                out[key] = what
    return out


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.known = load_known(pid)
        self.known_seen = {}
        self.viol = {}
        self.counts = {}
        self.distinct = set()
        self.evals = 0
        self.samples = []
        self.inconclusive = []
        self.assumptions = []
        self.rule = ""
        self.extra = {}
        self.lock = threading.Lock()
        self.rng = random.Random("%s/%s/%d" % (pid, TIER, SEED))
        rd = os.path.join(WORKROOT, "replay", pid)
        shutil.rmtree(rd, ignore_errors=True)

    def sub(self, *a):
        return random.Random("%s/%s/%d/%s" % (self.pid, TIER, SEED, "/".join(map(str, a))))

    def count(self, name, n=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + n

    def ev(self, sig=None, n=1, sample=None):
        """One evaluation of the oracle; `sig` identifies a distinct,
        non-trivial observation."""
        with self.lock:
            self.evals += n
            if sig is not None:
                self.distinct.add(hashlib.md5(repr(sig).encode()).hexdigest()[:16])
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def unsure(self, what):
        with self.lock:
            self.inconclusive.append(what)
        log("inconclusive:", what)

    def violation(self, key, detail="", files=None):
        """Route a violation through the known findings, report it otherwise."""
        key = " ".join(str(key).split())[:300]
        with self.lock:
            if key in self.known:
                self.known_seen[key] = self.known_seen.get(key, 0) + 1
                return
            if key in self.viol:
                self.viol[key]["n"] += 1
                return
            idx = len(self.viol)
            self.viol[key] = {"n": 1, "path": None}
            d = os.path.join(replay_dir(self.pid), "%02d" % idx)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "why.txt"), "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write("property %s\nkey: %s\nseed %d tier %s\n\n%s\n" % (self.pid, key, SEED, TIER, detail))
            for n, c in (files or {}).items():
                mode = "wb" if isinstance(c, bytes) else "w"
                kw = {} if mode == "wb" else {"encoding": "utf-8", "errors": "surrogateescape"}
                with open(os.path.join(d, n), mode, **kw) as f:
                    f.write(c)
            self.viol[key]["path"] = d

    def too_many(self, n=25):
        return len(self.viol) >= n

    def finish(self):
        for key, what in self.known.items():
            if key in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
            else:
                log("known finding not observed in this run: %s" % key)
        for key, v in self.viol.items():
            print("VIOLATION property=%s replay=%s" % (self.pid, v["path"]))
            log("  -> %s (x%d)" % (key, v["n"]))
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples or ["(none)"],
            "observed": dict(sorted(self.counts.items())),
            "inconclusive": len(self.inconclusive),
            "known_findings_seen": self.known_seen,
        }
        if self.inconclusive:
            cov["inconclusive_samples"] = self.inconclusive[:5]
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        if self.viol:
            return 1
        if self.evals == 0 or len(self.distinct) == 0 or len(self.inconclusive) > max(3, self.evals // 20):
            log("check %s could not decide: evaluations=%d distinct=%d inconclusive=%d"
                % (self.pid, self.evals, len(self.distinct), len(self.inconclusive)))
            return 2
        log("%s: held; %d evaluations, %d distinct, %.1fs %s" % (
            self.pid, self.evals, len(self.distinct), time.time() - self.t0,
            json.dumps(self.counts, sort_keys=True)))
        return 0


def main(pid, fn, level="exploration"):
    chk = Check(pid, level)
    try:
        fn(chk)
    except CannotDecide as e:
        log("check %s cannot decide: %s" % (pid, e))
        if not chk.viol:
            return 2
    return chk.finish()


def scale(quick, thorough):
    return thorough if TIER == "thorough" else quick
