#!/usr/bin/env python3
"""P02: exactly the valid configurations are accepted."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, invalid, big
from common import scale

TOOLS = ("ort", "ort-c-header", "ort-c-manpage", "ort-c-source", "ort-json", "ort-nodejs", "ort-rust", "ort-sql",
         "ort-javascript", "ort-xliff", "ort-audit", "ort-audit-json", "ort-diff", "ort-sqldiff")


def launch(b, d, t, texts, tag, r):
    """Give the texts, as separate files, to tool t."""
    ps = [work.write(d, "%s-%d.ort" % (tag, i), x) for i, x in enumerate(texts)]
    empty = work.write(d, "%s-e.ort" % tag, "struct zzother { field qq int; };\n")
    if t in ("ort-diff", "ort-sqldiff"):
        a = [os.path.join(b, t)] + ([empty, "-f"] + ps if r.random() < .5 else ps + ["-f", empty])
        inp = None
    elif len(ps) == 1 and r.random() < .4:
        a, inp = work.argv(b, t), texts[0]
    else:
        a, inp = work.argv(b, t) + ps, None
    x = common.run(a, input=inp)
    for p in ps + [empty]:
        os.unlink(p)
    return x


def main(chk):
    b = common.build()
    d = common.scratch("p02")
    rules = list(invalid.RULES)
    per = scale(36, 400)

    def bad(job):
        if chk.too_many():
            return
        name, i = job
        r = chk.sub("bad", name, i)
        c = gen.gen_config(r.randrange(10 ** 9))
        n = r.choice((1, 1, 1, 2, 3))
        texts = invalid.mutate(r, name, c, n)
        if texts is None:
            chk.count("rule not applicable to the drawn configuration")
            return
        t = "ort" if r.random() < .4 else r.choice(TOOLS)
        x = launch(b, d, t, texts, "b%s%d" % (name.replace("/", "_").replace(" ", "_"), i), r)
        fs = {"in%d.ort" % k: v for k, v in enumerate(texts)}
        if x.timeout:
            chk.unsure("timeout " + name)
            return
        if x.san:
            chk.violation("crash on invalid input: " + x.san, x.err[-3000:], fs)
            return
        want = 2 if t == "ort-diff" else 1
        if x.rc == 0 or (t == "ort-diff" and x.rc == 1):
            chk.violation("accepted although: " + name, "tool %s" % t, fs)
        elif x.rc != want:
            chk.violation("odd exit %s from %s for: %s" % (x.rc, t, name), x.err, fs)
        elif "error" not in x.err and "fatal" not in x.err:
            chk.violation("rejected without an error message: " + name, "tool %s\n%s" % (t, x.err), fs)
        elif x.out:
            chk.violation("output despite rejection: " + name, "tool %s\n%s" % (t, x.out[:2000]), fs)
        chk.count("rejected by " + t)
        chk.ev(("bad", name, i), sample={"rule": name, "tool": t, "said": x.err.strip().splitlines()[-1:]})

    common.pmap(bad, [(n, i) for n in rules for i in range(per)])
    chk.extra["rules"] = rules

    def good(i):
        if chk.too_many():
            return
        r = chk.sub("good", i)
        c = big.config(r, i, 400)[1] if i < 35 else gen.gen_config(r.randrange(10 ** 9))
        n = r.choice((1, 1, 2, 4))
        st = cfg.Style.noisy(r) if r.random() < .6 else cfg.Style()
        texts = cfg.to_files(c, st, n) if n > 1 else [cfg.to_text(c, st)]
        t = "ort" if r.random() < .4 else r.choice(TOOLS)
        if t in ("ort-audit", "ort-audit-json") and c.roles is None or t in ("ort-sqldiff", "ort-xliff"):
            t = "ort"
        x = launch(b, d, t, texts, "g%d" % i, r)
        fs = {"in%d.ort" % k: v for k, v in enumerate(texts)}
        if x.timeout:
            chk.unsure("timeout good %d" % i)
        elif x.san:
            chk.violation("crash on valid input: " + x.san, x.err[-3000:], fs)
        elif x.rc == 2 and t == "ort-diff" or x.rc not in (0, 1) or x.rc == 1 and t != "ort-diff":
            e = [l for l in x.err.splitlines() if "error" in l] or ["?"]
            chk.violation("valid configuration rejected: " + e[0].split("error:")[-1], "tool %s\n%s" % (t, x.err), fs)
        elif ": error:" in x.err:
            chk.violation("accepted with an error message", x.err, fs)
        chk.count("accepted by " + t)
        chk.ev(("good", i))
    common.pmap(good, range(scale(1500, 25000)))

    # -- a document cut short is never accepted unless the cut falls between statements
    def cut(i):
        r = chk.sub("cut", i)
        c = gen.gen_config(r.randrange(10 ** 9))
        objs = cfg.toks_config(c, cfg.Style())
        if not objs:
            return
        o = [x for x in r.choice(objs) if x != "\n"]
        k = r.randrange(1, len(o))
        pre = r.choice((0, 0, 1))
        t = cfg.render((objs[0] if pre and objs[0] is not o else []) + o[:k], cfg.Style())
        t = t.rstrip("\n") if r.random() < .5 else t
        if isinstance(o[k - 1], cfg.Str) and r.random() < .3:
            t = t.rstrip("\n")[:-1]
        x = launch(b, d, "ort", [t], "c%d" % i, r)
        if x.san:
            chk.violation("crash on truncated input: " + x.san, x.err[-3000:], {"in.ort": t})
        elif x.rc == 0:
            chk.violation("truncated document accepted", x.out[:2000], {"in.ort": t})
        chk.count("truncated documents")
        chk.ev(("cut", i))
    common.pmap(cut, range(scale(500, 8000)))
    chk.rule = ("distinct (rule, configuration) pairs whose rejection, and distinct valid documents whose acceptance, "
                "was observed")
    chk.assumptions = ["rules are those of ort(5) as encoded in lib/invalid.py; constructs on which manual and tools "
                       "differ are left out (see DESIGN.md)"]


if __name__ == "__main__":
    sys.exit(common.main("P02", main))
