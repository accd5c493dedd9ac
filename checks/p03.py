#!/usr/bin/env python3
"""P03: the canonical printer loses nothing and is a fixed point."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, refparse, big
from common import scale


ZONES = ("UTC", "XXX-9", "YYY8", "ZZZ-5:45", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3",
         "<-03>3<-02>,M10.3.0/0,M2.3.0/0", "<+14>-14", "<-12>12")


def main(chk):
    b = common.build()
    ort = [os.path.join(b, "ort")]

    def again(out, what, fs, env=None):
        y = common.run(ort, input=out, env=env)
        if y.timeout:
            return chk.unsure("timeout")
        if y.san:
            return chk.violation("crash on own output: " + y.san, y.err[-3000:], fs)
        if y.rc:
            e = [l for l in y.err.splitlines() if "error" in l] or ["?"]
            return chk.violation("own output rejected: " + e[0].split("error:")[-1], what + "\n" + y.err, fs)
        if y.out != out:
            return chk.violation("own output not a fixed point", what + "\n" + out + "\n---\n" + y.out, fs)
        chk.count("fixed points")

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = big.config(r, i, 400)[1] if i < 14 else gen.gen_config(r.randrange(10 ** 9))
        t = cfg.to_text(c, cfg.Style.noisy(r) if r.random() < .6 else cfg.Style())
        # dates are in local time
        env = {"TZ": r.choice(ZONES)} if r.random() < .5 else None
        if env:
            chk.count("in time zone %s" % env["TZ"])
        x = common.run(ort, input=t, env=env)
        fs = {"in.ort": t, "out.ort": x.out, "env.txt": repr(env)}
        if x.timeout:
            return chk.unsure("timeout")
        if x.san:
            return chk.violation("crash: " + x.san, x.err[-3000:], fs)
        if x.rc:
            return chk.violation("valid configuration rejected", x.err, fs)
        try:
            df = cfg.diff_canon(cfg.canon(c), cfg.canon(refparse.parse(x.out)))
        except refparse.Bad as e:
            return chk.violation("output is not ort(5): %s" % e, x.out, fs)
        if df:
            import re
            key = re.sub(r"/(structs|enums|bitfs)/\w+", r"/\1", df[0].split(":")[0])
            return chk.violation("printed configuration differs at " + re.sub(r"\d+", "N", key), "\n".join(df), fs)
        chk.count("structs", len(c.structs))
        chk.count("fields", sum(len(s.fields) for s in c.structs))
        chk.count("queries", sum(len(s.searches) for s in c.structs))
        chk.count("updates", sum(len(s.updates) + len(s.deletes) for s in c.structs))
        again(x.out, "generated", fs, env)
        chk.ev(("gen", i, len(x.out)), sample=x.out[:200])
    common.pmap(one, range(scale(2500, 40000)))

    # shipped configurations, and accepted mutants of them
    seeds = list(work.seeds().items())
    pool = [v for _, v in seeds]

    def seed(job):
        if chk.too_many():
            return
        kind, i = job
        r = chk.sub(kind, i)
        data = pool[i] if kind == "seed" else work.mutate_tokens(r, r.choice(pool), r.choice(pool))
        x = common.run(ort, input=data)
        if x.rc or x.timeout or x.san:
            if x.san:
                chk.violation("crash: " + x.san, x.err[-3000:], {"in.ort": data})
            return
        fs = {"in.ort": data, "out.ort": x.out}
        try:
            a = refparse.parse(data.decode("utf-8", "surrogateescape"))
        except Exception:
            a = None       # the reference parser is only meant for what it knows
        try:
            o = refparse.parse(x.out)
        except refparse.Bad as e:
            return chk.violation("output is not ort(5): %s" % e, x.out, fs)
        if a is not None and kind == "seed":
            try:
                df = cfg.diff_canon(cfg.canon(a), cfg.canon(o))
            except Exception as e:
                df = []
                chk.count("reference parser not applicable")
            if df:
                return chk.violation("printed configuration differs (%s)" % seeds[i][0], "\n".join(df), fs)
            chk.count("shipped configurations compared")
        again(x.out, kind, fs)
        chk.ev((kind, hash(data)))
    common.pmap(seed, [("seed", i) for i in range(len(seeds))] + [("mut", i) for i in range(scale(1200, 20000))])
    chk.rule = "distinct accepted documents whose printed form was compared with an independent model and reprinted"
    chk.assumptions = ["white space inside labels and carriage returns before newlines are folded by design"]


if __name__ == "__main__":
    sys.exit(common.main("P03", main))
