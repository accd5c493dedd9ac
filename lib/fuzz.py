"""Build and run the libFuzzer target shims/fuzz_ort.c with fixed numbers of
runs, reporting crashes and what was exercised."""
import json, os, re, shutil, subprocess
import common, work

CC = ("clang -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer")
LIBS = ("libort-lang-c.a libort-lang-javascript.a libort-lang-json.a libort-lang-nodejs.a libort-lang-rust.a "
        "libort-lang-sql.a libort-lang-xliff.a libort.a").split()


def build():
    b = common.build(CC, "-O1 -g", "fuzz", LIBS)
    exe = os.path.join(b, "fuzz_ort")
    src = os.path.join(common.VERIF, "shims", "fuzz_ort.c")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        tmp = exe + ".%d" % os.getpid()
        r = subprocess.run(["clang", "-g", "-O1", "-fsanitize=fuzzer,address,undefined",
                            "-fno-sanitize-recover=all", "-I", b, "-o", tmp, src] +
                           [os.path.join(b, l) for l in LIBS] + ["-lexpat", "-lm"],
                           env=common.BASE_ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise common.CannotDecide("fuzz target: " + r.stdout.decode()[-2000:])
        os.rename(tmp, exe)
    return exe


def run(chk, jobs, runs, pool):
    exe = build()
    d = common.scratch("fuzz")
    kw = [k for k in work.KW if k and "\0" not in k and '"' not in k and "\\" not in k]
    with open(os.path.join(d, "dict"), "w") as f:
        f.write("\n".join('"%s"' % k for k in kw) + '\n"\\""\n')
    r = chk.sub("fuzz")
    seed = os.path.join(d, "seed")
    os.mkdir(seed)
    for i, s in enumerate(pool):
        if len(s) > 6000:
            continue
        o = r.choice(pool)
        with open(os.path.join(seed, "s%04d" % i), "wb") as f:
            f.write(bytes([r.randrange(256)]) + s.replace(b"\0", b"") +
                    (b"\0" + o.replace(b"\0", b"") if r.random() < .5 and len(o) < 6000 else b""))

    def one(j):
        c = os.path.join(d, "c%d" % j)
        os.mkdir(c)
        st = os.path.join(d, "stats%d" % j)
        x = common.run([exe, "-runs=%d" % runs, "-seed=%d" % (common.SEED * 100 + j + 1), "-timeout=60",
                        "-rss_limit_mb=3000", "-max_len=12000", "-detect_leaks=0", "-print_final_stats=1",
                        "-dict=" + os.path.join(d, "dict"), "-artifact_prefix=" + c + "-", c, seed],
                       env={"ORTV_STATS": st, "ASAN_OPTIONS": common.BASE_ENV["ASAN_OPTIONS"] + ":handle_abort=1"},
                       timeout=14000, cpu=13000)
        arts = {os.path.basename(a): open(os.path.join(d, a), "rb").read()
                for a in os.listdir(d) if a.startswith("c%d-" % j)}
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", x.err)
        cov = re.findall(r"cov: (\d+) ft: (\d+)", x.err)
        if m:
            chk.count("fuzz executions", int(m.group(1)))
        if cov:
            chk.extra.setdefault("fuzz_coverage_edges", []).append(int(cov[-1][0]))
        if os.path.exists(st):
            for k, v in json.load(open(st)).items():
                chk.count("fuzz " + k, v)
        if x.rc != 0:
            tail = x.err[-6000:]
            if any(a.split("-", 1)[1].startswith(("timeout", "oom", "slow")) for a in arts):
                chk.unsure("fuzzer resource limit %s" % sorted(arts))
                chk.extra.setdefault("fuzz_limits", []).append(sorted(arts))
            elif "ORTV:" in x.err:
                k = [l for l in x.err.splitlines() if l.startswith("ORTV:")][0]
                chk.violation("library: " + k, tail, arts)
            elif x.san or arts:
                asrt = [l for l in x.err.splitlines() if "Assertion" in l]
                chk.violation("library: %s" % (asrt[0][:200] if asrt else x.san or common.san_key(x.err)), tail, arts)
            else:
                chk.unsure("fuzzer ended with %s: %s" % (x.rc, tail[-300:]))
        shutil.rmtree(c, ignore_errors=True)
        chk.ev(("fuzz", j, m.group(1) if m else 0), n=int(m.group(1)) if m else 0)
    common.pmap(one, range(jobs))
