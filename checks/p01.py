#!/usr/bin/env python3
"""P01: no input makes a tool crash, abort, hang, or misuse memory, and each
run ends in success or in a diagnosed failure on which all tools agree."""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, fuzz, big
from common import scale

VERDICT_TOOLS = ("ort", "ort-c-header", "ort-c-manpage", "ort-c-source", "ort-json", "ort-nodejs", "ort-rust", "ort-sql",
                 "ort-javascript")


def judge(chk, r, what, files, allowed=(0, 1)):
    """The monitor common to every execution."""
    chk.count("executions")
    tool = os.path.basename(r.cmd[0])
    if r.timeout == "cpu":
        chk.violation("hang: %s" % tool, what, files)
        return False
    if r.timeout:
        chk.unsure("wall timeout: %s %s" % (tool, what))
        return False
    if r.san:
        chk.violation("%s: %s" % (tool, r.san), what + "\n" + r.err[-4000:], files)
        return False
    if r.rc not in allowed:
        chk.violation("exit %s: %s" % (r.rc, tool), what + "\n" + r.err[-2000:], files)
        return False
    if r.rc != 0 and not r.err.strip() and not (tool == "ort-diff" and r.rc == 1):
        chk.violation("failure without diagnostic: %s" % tool, what, files)
        return False
    chk.count("exit%d %s" % (r.rc, tool))
    return True


def main(chk):
    b = common.build()
    d = common.scratch("p01")
    seeds = list(work.seeds().items())
    gens = [work.enc(cfg.to_text(gen.gen_config(chk.rng.randrange(10 ** 9)))) for _ in range(150)]
    pool = [v for _, v in seeds] + gens * 2

    # -- every shipped configuration with every tool, then hostile variants
    def one(job):
        kind, i = job
        if chk.too_many():
            return
        r = chk.sub(kind, i)
        if kind == "seed":
            data, name = seeds[i][1], seeds[i][0]
            tools = work.CONFIG_TOOLS
        else:
            base, other = r.choice(pool), r.choice(pool)
            data = (work.mutate_tokens if kind == "tok" else work.mutate_bytes)(r, base, other)
            name = "%s%d" % (kind, i)
            tools = ("ort",) + tuple(r.sample(work.CONFIG_TOOLS[1:], scale(3, 6)))
        path = work.write(d, "%s-%d.ort" % (kind, i), data)
        fs = {"input.ort": data}
        verdict = {}
        for t in tools:
            a = work.argv(b, t, r if kind != "seed" else None)
            via_stdin = r.random() < .3
            x = common.run(a + ([] if via_stdin else [path]), input=data if via_stdin else None, timeout=180)
            if judge(chk, x, "%s: %s" % (name, " ".join(a)), fs) and t in VERDICT_TOOLS:
                verdict[t] = x.rc
        if len(set(verdict.values())) > 1:
            chk.violation("tools disagree on acceptance: " +
                          " ".join(sorted(t for t in verdict if verdict[t] != verdict.get("ort"))), repr(verdict), fs)
        chk.ev((kind, hash(data)) if verdict else None, sample={"kind": kind, "name": name, "verdict": str(verdict)})
        os.unlink(path)

    jobs = [("seed", i) for i in range(len(seeds))]
    jobs += [("tok", i) for i in range(scale(1500, 30000))]
    jobs += [("byte", i) for i in range(scale(500, 8000))]
    common.pmap(one, jobs)

    # -- configurations that are large in some way, with every tool
    def large(i):
        r = chk.sub("large", i)
        name, c = big.config(r, i, 400)
        data = work.enc(cfg.to_text(c))
        path = work.write(d, "large-%d.ort" % i, data)
        for t in work.CONFIG_TOOLS:
            a = work.argv(b, t, None)
            x = common.run(a + [path], timeout=180)
            if judge(chk, x, "large %s: %s" % (name, " ".join(a)), {"input.ort": data}) and t in VERDICT_TOOLS and x.rc:
                chk.violation("large configuration of %s not accepted by %s" % (name, t), x.err[-2000:], {"input.ort": data})
        x = common.run([os.path.join(b, "ort-sqldiff"), path, path])
        judge(chk, x, "large %s: ort-sqldiff" % name, {"input.ort": data})
        chk.ev(("large", name, i))
        os.unlink(path)
    common.pmap(large, range(scale(14, 70)))

    # -- pairs: ort-diff and ort-sqldiff
    def pair(i):
        if chk.too_many():
            return
        r = chk.sub("pair", i)
        a = r.choice(pool)
        c = a if r.random() < .1 else work.mutate_tokens(r, a, r.choice(pool)) if r.random() < .7 else r.choice(pool)
        if r.random() < .5:
            a, c = c, a
        fa, fb = work.write(d, "pa%d" % i, a), work.write(d, "pb%d" % i, c)
        fs = {"old.ort": a, "new.ort": c}
        for t in ("ort-diff", "ort-sqldiff"):
            cmd = [os.path.join(b, t)] + (["-d"] if t == "ort-sqldiff" and r.random() < .5 else [])
            form = r.randrange(4)
            if form == 0:
                x = common.run(cmd + [fa, fb])
            elif form == 1:
                x = common.run(cmd + [fa, "-f", fb])
            elif form == 2:
                x = common.run(cmd + ["-f", fb], input=a)
            else:
                x = common.run(cmd + [fa], input=c)
            judge(chk, x, "%s form %d" % (t, form), fs, (0, 1, 2) if t == "ort-diff" else (0, 1))
        chk.ev(("pair", hash(a), hash(c)))
        os.unlink(fa), os.unlink(fb)
    common.pmap(pair, range(scale(400, 6000)))

    # -- translations: hostile XLIFF against accepted configurations
    xl = []
    for f in sorted(glob.glob(os.path.join(common.REPO, "regress", "xliff", "*.xlf"))):
        xl.append(open(f, "rb").read())
    labelled = [g for g in gens if b"jslabel" in g]
    ext = [common.run([os.path.join(b, "ort-xliff")], input=g, text=False) for g in labelled[:40]]
    pairs = [(g, x.out) for g, x in zip(labelled, ext) if x.rc == 0]
    for x in ext:
        x.out, x.err = x.out.decode("utf-8", "surrogateescape"), x.err.decode("utf-8", "replace")
        judge(chk, x, "extraction", {})
    if not pairs or not xl:
        chk.unsure("no XLIFF corpus")

    def xliff(i):
        if chk.too_many() or not pairs:
            return
        r = chk.sub("xliff", i)
        g, x = r.choice(pairs)
        if r.random() < .3 and xl:
            x = r.choice(xl)
        if r.random() < .5:
            x = x.replace(b"</source>", b"</source><target>t</target>")
        x = (work.mutate_tokens if r.random() < .6 else work.mutate_bytes)(r, x, r.choice(pairs)[1])
        fa, fb = work.write(d, "xa%d" % i, g), work.write(d, "xb%d" % i, x)
        cmd = [os.path.join(b, "ort-xliff"), "-" + r.choice(("j", "u"))] + (["-c"] if r.random() < .3 else [])
        y = common.run(cmd + ([fb, fa] if r.random() < .7 else [fb]), input=g)
        judge(chk, y, " ".join(cmd), {"c.ort": g, "t.xlf": x})
        chk.ev(("xliff", hash(x)))
        os.unlink(fa), os.unlink(fb)
    common.pmap(xliff, range(scale(400, 6000)))

    # -- in-process: coverage-guided inputs over the whole library
    fuzz.run(chk, jobs=7, runs=scale(25000, 1500000), pool=pool)
    chk.rule = ("distinct inputs on which at least one tool reached a verdict under ASan+UBSan; executions, exits "
                "per tool and coverage-guided totals are in 'observed'")
    chk.assumptions = ["memory exhaustion is out of scope here (see P20)",
                       "an input needing more than 60 CPU seconds is a hang",
                       "leaks at exit are not counted as violations of this property"]


if __name__ == "__main__":
    sys.exit(common.main("P01", main))
