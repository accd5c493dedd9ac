"""Build and run lib/c/libdrv.c, an application of the libraries."""
import hashlib, os, shutil
import common

ARCH = tuple("libort-lang-%s.a" % x for x in "c javascript json nodejs rust sql xliff".split())


def build(kind):
    if kind == "san":
        cc, tag = "gcc " + common.SANFLAGS, "san"
    else:
        cc, tag = "clang -fsanitize=thread", "tsan"
    b = common.build(cc=cc, tag=tag, extra_targets=ARCH)
    src = os.path.join(common.VERIF, "lib", "c", "libdrv.c")
    h = hashlib.sha256((open(src).read() + b + cc).encode()).hexdigest()[:12]
    o = os.path.join(common.WORKROOT, "libdrv-%s-%s" % (kind, h))
    if not os.path.exists(o):
        t = o + ".%d" % os.getpid()
        r = common.run(cc.split() + ["-O1", "-g", "-I", b] + (["-DWATCH"] if kind == "san" else []) +
                       ["-o", t, src] + [os.path.join(b, a) for a in ARCH] + [os.path.join(b, "libort.a"), "-lexpat", "-lm", "-lpthread"])
        if r.rc:
            raise common.CannotDecide("cannot build libdrv: " + r.err[-2000:])
        os.rename(t, o)
    return b, o


class Run:
    """One run: results by operation, output by operation, other lines."""

    def __init__(self, exe, b, script, cwd, out, leaks=False):
        os.makedirs(out, exist_ok=True)
        env = {"ASAN_OPTIONS": common.BASE_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=%d" % leaks),
               "LSAN_OPTIONS": "exitcode=99", "TSAN_OPTIONS": "exitcode=98:halt_on_error=0"}
        r = common.run([exe, out, os.path.join(common.REPO, "jsmn.c"), os.path.join(common.REPO, "ortPrivate.ts")],
                       input=script, cwd=cwd, env=env)
        self.r, self.ops, self.lines, self.done = r, {}, [], False
        buf = {}
        for f in os.listdir(out):
            if f.startswith("out."):
                with open(os.path.join(out, f), "rb") as fh:
                    buf[f[4:]] = fh.read()
        self.total = {k: len(v) for k, v in buf.items()}
        self.covered = {k: 0 for k in buf}
        for l in r.out.split("\n"):
            w = l.split()
            if not w:
                continue
            if w[0] == "op":
                th = "m" if w[3] == "-1" else w[3]
                a, z = int(w[4]), int(w[5])
                self.ops[w[1]] = (int(w[2]), buf.get(th, b"")[a:z])
                self.covered[th] = self.covered.get(th, 0) + z - a
            elif w == ["done"]:
                self.done = True
            else:
                self.lines.append(w)
        shutil.rmtree(out, ignore_errors=True)
