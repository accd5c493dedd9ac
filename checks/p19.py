#!/usr/bin/env python3
"""P19: running out of memory, space or input is reported, never survived
with incomplete results."""
import os, random, re, resource, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, edit, work
from common import scale

WRAP = ("malloc calloc realloc reallocarray strdup strndup asprintf vasprintf fopen XML_ParserCreate "
        "printf vprintf fprintf vfprintf fputs puts fputc putc putchar fwrite fgetc getc").split()
KIND = {"m": "FI_MEM", "o": "FI_OUT"}
ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=86", "TZ": "UTC"}


def build():
    src = os.path.join(common.VERIF, "lib", "c", "fault.c")
    text = open(src).read()
    import hashlib
    o = os.path.join(common.WORKROOT, "fault-%s.o" % hashlib.sha256(text.encode()).hexdigest()[:12])
    if not os.path.exists(o):
        os.makedirs(common.WORKROOT, exist_ok=True)
        t = o + ".%d" % os.getpid()
        if common.run(["gcc", "-O1", "-g", "-c", src, "-o", t]).rc:
            raise common.CannotDecide("cannot compile fault.c")
        os.rename(t, o)
    cc = "gcc " + common.SANFLAGS + " -U_FORTIFY_SOURCE -fno-builtin -Wl,%s " % o + " ".join("-Wl,--wrap=" + w for w in WRAP)
    return common.build(cc=cc, tag="fault")


class Tool:
    def __init__(self, name, args, ok=(0,), stdin=None):
        self.name, self.args, self.ok, self.stdin = name, args, ok, stdin

    def label(self):
        return " ".join([self.name] + [a for a in self.args if a.startswith("-") and len(a) < 4])


def tools(b, d, r):
    """Every tool on the files of a directory."""
    t = [Tool("ort", ["a.ort"]), Tool("ort", ["a.ort", "m.ort"]), Tool("ort", [], stdin="a.ort"),
         Tool("ort-c-header", ["-jJv", "a.ort"]), Tool("ort-c-header", ["-s", "-Nb", "a.ort"]),
         Tool("ort-c-source", ["-jJv", "-S", b, "a.ort"]), Tool("ort-c-source", ["-h", "a.h,b.h", "-Nd", "-j", "-I", "dv", "-S", b, "a.ort"]),
         Tool("ort-c-manpage", ["-jJv", "a.ort"]), Tool("ort-javascript", ["-S", b, "a.ort"]),
         Tool("ort-json", ["a.ort"]), Tool("ort-nodejs", ["-ve", "a.ort"]), Tool("ort-nodejs", ["a.ort"]),
         Tool("ort-rust", ["a.ort"]), Tool("ort-sql", ["a.ort"]),
         Tool("ort-sqldiff", ["a.ort", "b.ort"]), Tool("ort-sqldiff", ["-d", "b.ort", "a.ort"]),
         Tool("ort-diff", ["a.ort", "b.ort"], (0, 1)), Tool("ort-diff", ["a.ort", "a.ort"], (0, 1)),
         Tool("ort-xliff", ["a.ort"]), Tool("ort-xliff", ["-c", "a.ort"]),
         Tool("ort-xliff", ["-j", "a.ort", "j.xliff"]), Tool("ort-xliff", ["-u", "a.ort", "j.xliff"])]
    t += [Tool("ort-audit", ["-v", "-r", x, "a.ort"]) for x in r] + [Tool("ort-audit-json", ["-r", x, "a.ort"]) for x in r[:1]]
    t += [Tool("ort-audit-json", ["-s", "-r", x, "a.ort"]) for x in r[:1]]
    return t


def main(chk):
    b = build()
    root = common.scratch("p19")
    sites = set()

    def execute(t, d, env, fsize=None, out=None):
        e = dict(os.environ, **common.BASE_ENV)
        e.update(ENV)
        e.update(env)

        def pre():
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            if fsize is not None:
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        p = subprocess.Popen([os.path.join(b, t.name)] + t.args, cwd=d, env=e, stdin=open(os.path.join(d, t.stdin)) if t.stdin else subprocess.DEVNULL,
                             stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
        try:
            o, er = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise common.CannotDecide("timeout")
        return p.returncode, o, er.decode("utf-8", "replace")

    def where(t, site):
        """Functions of a call site, innermost first."""
        x = common.run(["addr2line", "-f", "-e", os.path.join(b, t.name)] + ["%x" % (int(a, 16) - 1) for a in site.split()[1:]])
        return next((f for f in x.out.split("\n")[::2] if not re.match(r"hit$|ohit$|__wrap|\?\?", f)), "?")

    def judge(t, ref, res, what, fs, key):
        rc, out, err = res
        fs = dict(fs, **{"stderr": err, "command": " ".join([t.name] + t.args) + "\n" + what})
        m = re.search(r"ERROR: AddressSanitizer: (\S+)|runtime error: (.*)|Assertion .(.*?). failed", err)
        if rc == -24:
            return chk.violation("endless: %s: %s" % (t.name, key()), what, fs)
        if rc < 0 or rc == 86 or m:
            f = re.search(r" in (\w+) \S*/(\w[\w-]*\.[ch]):\d+", err)
            k = "%s in %s" % (next((x for x in (m.groups() if m else ()) if x), "signal %d" % -rc)[:60], f.group(1) if f else "?")
            return chk.violation("crash: " + k, what + "\n" + err[:3000], fs)
        if rc in t.ok and not (rc == ref[0] and out == ref[1]):
            chk.violation("success: %s: %s" % (t.name, key()), what + "\nexit %d, %s, not %s bytes of output, which is %s" % (
                rc, len(out) if out is not None else "?", len(ref[1]), "different"), fs)
        chk.count("runs failing" if rc not in t.ok else "runs unaffected")

    def one(i):
        if chk.too_many(200):
            return
        r = chk.sub(i)
        c = gen.gen_config(r.randrange(1 << 30), gen.Opts(structs=(2, 4), fields=(2, 8), roles=.8, text="plain", docs=.4, labels=.8, queries=(1, 5), updates=(1, 3), deletes=(1, 2)))
        c2 = edit.edited(r, c.clone(), r.randint(2, 8))
        d = os.path.join(root, str(i))
        os.makedirs(d)
        if isinstance(c2, tuple):
            c2 = next(x for x in c2 if isinstance(x, cfg.Config))
        fs = {"a.ort": cfg.to_text(c), "b.ort": cfg.to_text(c2), "m.ort": ""}
        if i % 4 == 3:                    # faults in error paths
            fs["a.ort"] = work.mutate_tokens(r, fs["a.ort"].encode("utf-8", "surrogateescape"))
            if isinstance(fs["a.ort"], bytes):
                fs["a.ort"] = fs["a.ort"].decode("utf-8", "surrogateescape")
        for n, s in fs.items():
            with open(os.path.join(d, n), "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(s)
        rc, x, _ = execute(Tool("ort-xliff", ["a.ort"]), d, {})
        x = x.decode("utf-8", "surrogateescape")
        x = re.sub(r"<target/>|<target\s*></target>", "<target>zz</target>", x)
        if "<target" not in x:
            x = re.sub(r"(</source>)", r"\1<target>z &amp; y</target>", x)
        fs["j.xliff"] = x or "<x>"
        with open(os.path.join(d, "j.xliff"), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(fs["j.xliff"])
        roles = [x.name for x, _ in c.all_roles()] if c.roles is not None else []
        ts = tools(b, d, [r.choice(roles)] if roles else [])
        r.shuffle(ts)
        for t in ts[:scale(8, 99)]:
            probe(r, t, d, fs, scale(60, 150))
        shutil.rmtree(d, ignore_errors=True)

    def probe(r, t, d, fs, budget):
        log = os.path.join(d, "log")
        ref = execute(t, d, {"FI_LOG": log})
        ops = {"m": [], "o": []}
        for l in open(log):
            ops[l[0]].append(l.strip())
        plan = []
        for k, l in ops.items():
            by = {}
            for n, s in enumerate(l, 1):
                by.setdefault(s, []).append(n)
            l2 = list(by.items())
            r.shuffle(l2)
            l2.sort(key=lambda x: (t.name, x[0]) in sites)
            for s, ns in l2[:budget]:
                plan.append((k, s, r.choice(ns), r.random() < .3))
        for k, s, n, more in plan:
            if chk.too_many(200):
                return
            sites.add((t.name, s))
            res = execute(t, d, dict({KIND[k]: str(n)}, **({"FI_MORE": "1"} if more else {})))
            what = "%s: %s %d%s fails, at %s" % (t.label(), {"m": "allocation", "o": "output operation"}[k], n, " and all later" if more else "", s)
            judge(t, ref, res, what, fs, lambda: {"m": "allocation", "o": "output"}[k] + " in " + where(t, s))
            chk.ev((t.name, s), sample=what)
            chk.count("failed allocations" if k == "m" else "failed output")
        # The real thing: a device that is full, a file that may not grow.
        if ref[0] in t.ok and ref[1]:
            n = len(ref[1])
            for lim in [None, 0, n - 1] + [r.randrange(n) for _ in range(2)]:
                fn = os.path.join(d, "out")
                if lim is None:
                    with open("/dev/full", "w") as f:
                        res = execute(t, d, {}, out=f)
                    res = (res[0], b"", res[2])
                else:
                    with open(fn, "wb") as f:
                        res = execute(t, d, {}, fsize=lim, out=f)
                    res = (res[0], open(fn, "rb").read(), res[2])
                judge(t, ref, res, "%s: space for %s of %d bytes" % (t.label(), lim, n), fs, lambda: "no space for output")
                chk.ev((t.name, "space", lim is None))
                chk.count("limited space")
        # Input that cannot be read to its end.
        size = os.path.getsize(os.path.join(d, "a.ort"))
        for n in sorted({1, size, size + 1} | {r.randint(1, size + 1) for _ in range(2)}):
            res = execute(t, d, {"FI_RD": str(n), "FI_MORE": "1"})
            judge(t, ref, res, "%s: reading character %d fails" % (t.label(), n), fs, lambda: "input error")
            chk.ev((t.name, "read", n in (1, size + 1)))
            chk.count("failed input")

    common.pmap(one, range(scale(24, 120)))
    chk.count("sites", len(sites))
    shutil.rmtree(root, ignore_errors=True)
    chk.rule = ("for each tool, generated configurations and a failing allocation, output operation, input operation or limited space: exit status and "
                "output against those of the undisturbed run; distinct: tool and chain of callers of what failed")


if __name__ == "__main__":
    sys.exit(common.main("P19", main))
