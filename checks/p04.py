#!/usr/bin/env python3
"""P04: layout, letter case, statement order and the division into files do not
matter; equal input gives equal output."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, refparse, big
from common import scale

# tools whose output carries no source positions
PLAIN = ("ort", "ort-audit", "ort-audit-json", "ort-c-header", "ort-c-manpage", "ort-c-source",
         "ort-javascript", "ort-nodejs", "ort-rust", "ort-sql")


def out(b, t, texts, d, tag, r, args):
    ps = [work.write(d, "%s-%d.ort" % (tag, i), x) for i, x in enumerate(texts)]
    if len(ps) == 1 and r.random() < .3:
        x = common.run(args, input=texts[0])
    else:
        x = common.run(args + ps)
    for p in ps:
        os.unlink(p)
    return x


def norm(t, s):
    if t == "ort-audit-json":
        # positions of operations are part of this output
        s = re.sub(r'"(?:line|column)": *"?\d+"?', '"pos"', s)
        s = re.sub(r'"fname": *"[^"]*"', '"fname"', s)
    if t == "ort-audit":
        s = re.sub(r"[^\s]*:\d+:\d+", "POS", s)
    return s


def aliases(s):
    """Rename SQL aliases ("_a", "_bc") by first appearance."""
    m = {}
    return re.sub(r"(?<![\w])_[a-z]{1,3}\b", lambda x: m.setdefault(x.group(), "_%d" % len(m)), s)


def main(chk):
    b = common.build()
    d = common.scratch("p04")

    def respell(i):
        """Same tokens in other letter case and spacing: identical output."""
        if chk.too_many():
            return
        r = chk.sub("respell", i)
        c = gen.gen_config(r.randrange(10 ** 9))
        t = r.choice([x for x in PLAIN if c.roles is not None or not x.startswith("ort-audit")])
        args = work.argv(b, t, r, role=r.choice(["default", "all"] + [x.name for x, _ in c.all_roles()])
                         if t.startswith("ort-audit") else None)
        st = cfg.Style(chk.sub("same", i), order=r.random() < .5)
        seed = r.randrange(10 ** 9)
        import random
        a = cfg.to_text(c, cfg.Style(random.Random(seed)))
        z = cfg.to_text(c, cfg.Style(random.Random(seed), case=True, space=True))
        # comments in role and item positions keep their text; only tokens move
        x, y = out(b, t, [a], d, "a%d" % i, r, args), out(b, t, [z], d, "z%d" % i, r, args)
        fs = {"a.ort": a, "z.ort": z, "a.out": x.out, "z.out": y.out}
        if x.timeout or y.timeout:
            return chk.unsure("timeout")
        for w in (x, y):
            if w.san:
                return chk.violation("crash: " + w.san, w.err[-3000:], fs)
        if x.rc != y.rc:
            return chk.violation("%s: exit depends on layout" % t, "%s %s\n%s%s" % (x.rc, y.rc, x.err, y.err), fs)
        if norm(t, x.out) != norm(t, y.out):
            return chk.violation("%s: output depends on layout or letter case" % t, "", fs)
        chk.count("identical " + t)
        chk.ev(("respell", t, i) if x.rc == 0 and x.out else None, sample={"tool": t, "bytes": len(x.out)})
    common.pmap(respell, range(scale(1200, 20000)))

    def reorder(i):
        """Statements in another order, over several files: same meaning."""
        if chk.too_many():
            return
        r = chk.sub("reorder", i)
        c = big.config(r, i, 300)[1] if i < 14 else gen.gen_config(r.randrange(10 ** 9))
        want = cfg.canon(c)
        n = r.choice((1, 2, 3, 5))
        texts = cfg.to_files(c, cfg.Style.noisy(r), n)
        fs = {"in%d.ort" % k: v for k, v in enumerate(texts)}
        order = list(range(n))
        for _ in range(2):
            r.shuffle(order)
            x = out(b, "ort", [texts[k] for k in order], d, "r%d" % i, r, [os.path.join(b, "ort")])
            if x.timeout:
                return chk.unsure("timeout")
            if x.san:
                return chk.violation("crash: " + x.san, x.err[-3000:], fs)
            if x.rc:
                e = [l for l in x.err.splitlines() if "error" in l] or ["?"]
                return chk.violation("rejected when divided or reordered: " + e[0].split("error:")[-1],
                                     "order %s\n%s" % (order, x.err), fs)
            try:
                df = cfg.diff_canon(want, cfg.canon(refparse.parse(x.out)))
            except refparse.Bad as e:
                return chk.violation("output is not ort(5): %s" % e, x.out, fs)
            if df:
                return chk.violation("meaning depends on order or files: " +
                                     re.sub(r"\d+", "N", df[0].split(":")[0].split("/")[-1]),
                                     "\n".join(df), dict(fs, out=x.out))
            chk.count("file arrangements")
        chk.ev(("reorder", i, n))
    common.pmap(reorder, range(scale(1000, 16000)))

    def permute(i):
        """Structures, the fields of unique statements, and kinds of declarations
        in another order and other files: identical output."""
        if chk.too_many():
            return
        r = chk.sub("permute", i)
        c = gen.gen_config(r.randrange(10 ** 9), gen.Opts(uniques=.7, fields=(1, 8), langs=("en",)))
        e = c.clone()
        r.shuffle(e.structs)
        for s in e.structs:
            s.uniques = [tuple(r.sample(u, len(u))) for u in s.uniques]
        t = r.choice([x for x in PLAIN if c.roles is not None or not x.startswith("ort-audit")])
        args = work.argv(b, t, r, role=r.choice(["default", "all"] + [x.name for x, _ in c.all_roles()])
                         if t.startswith("ort-audit") else None)

        def texts(c, mix):
            st = cfg.Style(chk.sub("pstyle", i, mix), space=mix, case=mix)
            ls = [[cfg.toks_enum(x, st, "enum") for x in c.enums], [cfg.toks_enum(x, st, "bits") for x in c.bitfs],
                  [cfg.toks_struct(x, st) for x in c.structs],
                  [o for o in cfg.toks_config(c, st) if o[0] == "roles"]]
            objs = []
            while any(ls):
                l = r.choice([x for x in ls if x]) if mix else [x for x in ls if x][0]
                objs.append(l.pop(0))
            n = r.randint(1, 3) if mix else 1
            cuts = sorted(r.randint(0, len(objs)) for _ in range(n - 1))
            parts = [objs[x:y] for x, y in zip([0] + cuts, cuts + [len(objs)])]
            return [cfg.render([y for x in p for y in x], st) for p in parts if p]
        a, z = texts(c, False), texts(e, True)
        x, y = out(b, t, a, d, "pa%d" % i, r, args), out(b, t, z, d, "pz%d" % i, r, args)
        fs = {"a%d.ort" % k: v for k, v in enumerate(a)}
        fs.update({"z%d.ort" % k: v for k, v in enumerate(z)})
        fs.update({"a.out": x.out, "z.out": y.out})
        if x.timeout or y.timeout:
            return chk.unsure("timeout")
        for w in (x, y):
            if w.san:
                return chk.violation("crash: " + w.san, w.err[-3000:], fs)
        if x.rc != y.rc:
            return chk.violation("%s: exit depends on order" % t, "%s %s\n%s%s" % (x.rc, y.rc, x.err, y.err), fs)
        if aliases(norm(t, x.out)) != aliases(norm(t, y.out)):
            return chk.violation("%s: output depends on order or division into files" % t, "", fs)
        chk.count("identical permuted " + t)
        chk.ev(("permute", t, i) if x.rc == 0 and x.out else None)
    common.pmap(permute, range(scale(1600, 24000)))

    def again(i):
        """The same command gives the same bytes again."""
        if chk.too_many():
            return
        r = chk.sub("again", i)
        c = gen.gen_config(r.randrange(10 ** 9))
        t = r.choice(("ort-json", "ort-xliff") + PLAIN)
        a = cfg.to_text(c, cfg.Style.noisy(r))
        args = work.argv(b, t, r)
        x = common.run(args, input=a, env={"ORTV_PAD": ""})
        # other addresses, environment and directory
        y = common.run(args, input=a, env={"ORTV_PAD": "x" * r.randrange(1, 4000)}, cwd="/")
        if x.timeout or y.timeout:
            return chk.unsure("timeout")
        if (x.rc, x.out) != (y.rc, y.out):
            return chk.violation("%s: output not reproducible" % t, "", {"in.ort": a, "1": x.out, "2": y.out})
        chk.count("reproduced " + t)
        chk.ev(("again", t, i) if x.rc == 0 else None)
    common.pmap(again, range(scale(300, 5000)))
    chk.rule = "distinct pairs of spellings of one configuration whose outputs were compared"
    chk.assumptions = ["source positions and file names are the only parts of outputs allowed to follow layout"]


if __name__ == "__main__":
    sys.exit(common.main("P04", main))
