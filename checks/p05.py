#!/usr/bin/env python3
"""P05: ort-diff reports exactly the differences between two configurations."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, edit, diffmodel, big
from common import scale


def strip(l):
    return re.sub(r"(:\d+):\d+", r"\1", l)


def main(chk):
    b = common.build()
    d = common.scratch("p05")
    tool = [os.path.join(b, "ort-diff")]
    opts = gen.Opts(text="plain", docs=.4)

    def diff(A, B, tag, r):
        pa = [work.write(d, f, t) for f, t in zip(A.files, A.text)]
        pb = [work.write(d, f, t) for f, t in zip(B.files, B.text)]
        if len(pa) == len(pb) == 1 and r.random() < .5:
            x = common.run(tool + A.files + B.files, cwd=d)
        else:
            x = common.run(tool + A.files + ["-f"] + B.files, cwd=d)
        for p in set(pa + pb):
            os.unlink(p)
        return x

    def judge(A, B, i, r, what):
        fs = {"old%d.ort" % k: t for k, t in enumerate(A.text)}
        fs.update({"new%d.ort" % k: t for k, t in enumerate(B.text)})
        x = diff(A, B, i, r)
        if x.timeout:
            return chk.unsure("timeout")
        if x.san:
            return chk.violation("crash: " + x.san, x.err[-3000:], fs)
        if x.rc >= 2:
            chk.count("edited configuration not valid")
            if what == "same":
                chk.violation("error on valid configurations", x.err, fs)
            return
        try:
            want, ch = diffmodel.expected(A, B)
        except diffmodel.Ambiguous:
            return chk.count("ambiguous")
        got = x.out.splitlines()
        head = ["--- " + f for f in A.files] + ["+++ " + f for f in B.files]
        if got[:len(head)] != head:
            return chk.violation("heading", "\n".join(got[:6]), fs)
        got = [strip(l) for l in got[len(head):]]
        det = "edits: %s\nexit %s\n%s" % (what, x.rc, x.out)
        if (x.rc == 1) != ch:
            return chk.violation("exit status %d although %s" % (x.rc, "different" if ch else "equal"),
                                 det + "\nexpected\n" + "\n".join(want), fs)
        sg, sw = set(got), set(want)
        for kind, ls in (("missing", sw - sg), ("unexpected", sg - sw)):
            for l in sorted(ls):
                w = l.split()
                k = " ".join(w[:3] if l.startswith("!") else w[:2])
                chk.violation("%s line: %s" % (kind, k), det + "\n%s: %s\n" % (kind, l), fs)
        if sg == sw:
            for l in got:
                chk.count("line " + " ".join(l.split()[:3 if l.startswith("!") else 2]) if l[:1] in "+-!" else
                          "line same/mod")
        return ch

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        a = big.config(r, i, 300)[1] if i < 21 else gen.gen_config(r.randrange(10 ** 9), opts)
        n = r.choice((0, 1, 1, 1, 2, 4, 8))
        c, done = edit.edited(r, a, n)
        st = cfg.Style(r, case=r.random() < .5, space=r.random() < .5, order=r.random() < .5,
                       defaults=r.random() < .3, alias=r.random() < .3)
        try:
            A = diffmodel.Printed(a, st, ["o%d-%d.ort" % (i, k) for k in range(r.choice((1, 1, 2)))])
            B = diffmodel.Printed(c, st, ["n%d-%d.ort" % (i, k) for k in range(r.choice((1, 1, 2)))])
        except (AttributeError, KeyError, TypeError):
            return
        try:
            what = "same" if not done else ", ".join(done)
            ch = judge(A, B, i, r, what)
            if ch is not None:
                judge(B, A, i, r, "reverse of " + what)
                chk.ev(("diff", i) if done else None, n=2, sample={"edits": done, "differ": ch})
                for e in done:
                    chk.count("edit " + e)
        except (AttributeError, KeyError, TypeError):
            chk.count("edited configuration not valid")
    common.pmap(one, range(scale(2600, 45000)))

    def unrelated(i):
        r = chk.sub("unrelated", i)
        a, c = (gen.gen_config(r.randrange(10 ** 9), opts) for _ in "12")
        st = cfg.Style(r)
        A, B = diffmodel.Printed(a, st, ["x%d.ort" % i]), diffmodel.Printed(c, st, ["y%d.ort" % i])
        judge(A, B, i, r, "unrelated")
        chk.ev(("unrelated", i))
    common.pmap(unrelated, range(scale(150, 2500)))
    chk.rule = "distinct edited pairs whose complete report was compared, both ways, with an independent model"
    chk.assumptions = ["unnamed operations that are indistinguishable within one structure are left out",
                       "columns of positions are not compared"]


if __name__ == "__main__":
    sys.exit(common.main("P05", main))
