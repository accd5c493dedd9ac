#!/usr/bin/env python3
"""P23: configurations and differences in memory are as described."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, edit, work, libdrv, memconf, refparse, big
from common import scale


def main(chk):
    b, drv = libdrv.build("san")
    root = common.scratch("p23")

    def gone(df):
        return re.sub(r"\d+", "N", re.sub(r"/(structs|enums|bitfs)/\w+", r"/\1", df.split(":")[0]))

    def names(mem, texts, fs):
        """Positions of named objects."""
        lines = {n: t.split(b"\n") for n, t in texts.items()}
        for kind, nm, fn, l, col in mem.pos:
            ls = lines.get(fn)
            if ls is None:
                return chk.violation("file of " + kind, repr((nm, fn)), fs)
            if not 1 <= l <= len(ls) + 1:
                return chk.violation("line of %s beyond file" % kind, repr((nm, l, col)), fs)
            if not nm:
                continue
            at = ls[l - 1] if l <= len(ls) else b""
            w = nm[-1].encode()
            if col == 0 and at.lower().rstrip().endswith(w):
                continue
            if w not in at[max(col - len(w) - 1, 0):col + len(w)].lower():
                return chk.violation("position of " + kind, "%r at %d:%d in %r" % (nm, l, col, at), fs)

    def case(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        try:
            one(r, d, i)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def one(r, d, i):
        cs, prev = [], None
        for k in range(2):
            if prev is not None and r.random() < .75:
                c = edit.edited(r, prev, r.choice((1, 1, 2, 4, 10)))[0]
            elif i < 28 and prev is None:
                c = big.config(r, i, 400)[1]
            else:
                c = gen.gen_config(r.randrange(1 << 30), gen.Opts(structs=(1, 5), roles=.65, labels=.6, text=r.choice(("plain", "wild"))))
            cs.append(c)
            prev = c
        fs, texts, script = {}, [], []
        for k, c in enumerate(cs):
            st = cfg.Style.noisy(r) if r.random() < .5 else cfg.Style()
            l = cfg.to_files(c, st, r.choice((2, 3))) if r.random() < .3 else [cfg.to_text(c, st)]
            t = {"c%d%s.ort" % (k, "abc"[j]): work.enc(x) for j, x in enumerate(l)}
            for n, v in t.items():
                work.write(d, n, v)
            fs.update(t)
            texts.append(t)
            script += ["alloc %d" % k] + ["parse %d %s %s %s" % (k, r.choice(("file", "mem", "dribble")), n, n) for n in t] + \
                ["close %d" % k, "op d%d %d dump" % (k, k)]
        script += ["op q01 0 diffq 1", "op q10 1 diffq 0", "op q00 0 diffq 0", "op q11 1 diffq 1", "free 0", "free 1"]
        good = []
        for k in (0, 1):
            x = common.run([os.path.join(b, "ort")] + list(texts[k]), cwd=d)
            if x.timeout:
                return chk.unsure("timeout")
            if x.san:
                return chk.violation("crash: " + x.san, x.err, fs)
            if x.rc == 0:
                good.append(k)
        script = [s for s in script if all(int(w) in good for w in re.findall(r" ([01])\b", s.split("parse")[0] if s.startswith("op") else s[:9]))]
        if not good:
            return chk.count("refused")
        s = "\n".join(script) + "\n"
        run = libdrv.Run(drv, b, s, d, os.path.join(d, "out"))
        fs["script"] = s
        if run.r.timeout:
            return chk.unsure("timeout")
        if run.r.san or run.r.rc or not run.done:
            if run.r.rc == 99 and "libdrv:" in run.r.err:
                return chk.unsure("driver: " + run.r.err[:200])
            return chk.violation("driver: %s" % (run.r.san or run.r.rc), run.r.err[-4000:], fs)
        mems = {}
        for k in good:
            raw = run.ops.get("d%d" % k, (0, b""))[1]
            try:
                m = memconf.Mem(raw)
                c = m.config()
            except memconf.Bad as e:
                return chk.violation("memory: " + e.key, e.what, dict(fs, dump=raw))
            ref = refparse.parse("\n".join(t.decode("utf-8", "surrogateescape") for t in texts[k].values()))
            for s in ref.structs:
                for f in s.fields:
                    if f.type == "date" and isinstance(f.default, tuple):
                        f.default = cfg.date_epoch(f.default)
            auto = {e.name: [x.value is None for x in e.items] for e in ref.enums}
            for e in ref.enums:
                v = e.values()
                for x in e.items:
                    x.value = v[x.name]
            for e in c.enums:
                if auto.get(e.name) != e.auto:
                    return chk.violation("memory: EITEM_AUTO", "%s %r" % (e.name, e.auto), fs)
            df = cfg.diff_canon(cfg.canon(ref), cfg.canon(c))
            if df:
                return chk.violation("memory differs at " + gone(df[0]), "\n".join(df), dict(fs, dump=raw))
            got = [memconf.text(x["fname"]) for x in m.j["fnames"]]
            if sorted(got) != sorted(texts[k]):
                return chk.violation("memory: file names", repr(got), fs)
            bad = [x for x in m.j["mq"] if x["type"] != "warning"]
            if bad:
                return chk.violation("memory: errors in accepted configuration", repr(bad), fs)
            names(m, texts[k], fs)
            mems[k] = m
            chk.count("references checked", m.facts)
            chk.count("positions checked", len(m.pos))
            chk.ev(("conf", tuple(sorted({(f.type, f.null, f.ref is not None, bool(f.limits)) for s in c.structs for f in s.fields})),
                    tuple(sorted({(q.type, len(q.terms), q.distinct is not None, q.group is not None) for s in c.structs for q in s.searches}))))
        for x in good:
            for y in good:
                v = run.ops.get("q%d%d" % (x, y))
                if v is None or v[0] <= 0:
                    chk.violation("no differences", repr(v), fs)
                    continue
                ls = [l for l in v[1].decode().split("\n") if l]
                try:
                    n = memconf.check_diff(mems[x], mems[y], ls, x == y)
                except memconf.Bad as e:
                    chk.violation("differences: " + e.key, "%d->%d %s\n%s" % (x, y, e.what, "\n".join(ls)), fs)
                    continue
                chk.count("entries of differences", n)
                if x != y:
                    ts = sorted({l.split(" ")[0] for l in ls})
                    for t in ts:
                        chk.count(t)
                    chk.ev(("diff", tuple(ts)))

    common.pmap(case, range(scale(1500, 20000)))
    shutil.rmtree(root, ignore_errors=True)
    chk.rule = "distinct (kinds of fields and queries) of configurations, sets of kinds of differences"


if __name__ == "__main__":
    sys.exit(common.main("P23", main))
