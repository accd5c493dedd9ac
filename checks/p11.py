#!/usr/bin/env python3
"""P11: the generated Node.js interface does what the configuration says."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, dbmodel, dbops, dbrun, cgen, nodegen
from common import scale
import p09

# What another connection can do: read, start writing.
PROBE = {"immediate": "yn", "deferred": "yy", "exclusive": "nn"}


def main(chk):
    b = common.build()
    root = common.scratch("p11")
    dirs = []

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = dbrun.config(r, structs=(1, 4) if i % 3 else (2, 6))
        for s in c.structs:
            for f in s.fields:
                # Contradictory limits are for a type checker to complain of.
                f.limits = [l for k, l in enumerate(f.limits) if l[0] != "eq" or "eq" not in [x[0] for x in f.limits[:k]]]
        text = cfg.to_text(c)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        fs = {"a.ort": text}
        try:
            nodegen.generate(b, d, "a.ort", text, flags=("-v",) if r.random() < .7 else ())
        except nodegen.Failed as e:
            chk.violation(e.kind, e.det, fs)
            shutil.rmtree(d, ignore_errors=True)
            return
        m, steps = dbrun.plan(c, r, r.choice((8, 20, 30)), scale(80, 120))
        js = []
        for st in steps:
            if st.kind == "begin":
                x = {"k": "begin", "id": st.vals[0], "how": ("exclusive", "deferred", "immediate")[st.vals[1] + 1]}
            elif st.kind in ("commit", "rollback"):
                x = {"k": st.kind, "id": st.vals}
            else:
                x = nodegen.call(c, st.kind, st.s, st.op, st.vals)
            x["idx"] = st.idx
            js.append(x)
        dbp = os.path.join(d, "t.db")
        e = dbrun.database(b, d, "a.ort", dbp)
        if e:
            return chk.violation("schema can't be created", e, fs)
        job = {"db": dbp, "types": nodegen.types(c), "steps": js, "args": {"bcrypt_cost": 4} if r.random() < .5 else None}
        x = nodegen.execute(d, job)
        fs["ort.ts"] = open(os.path.join(d, "ort.ts"), encoding="utf-8", errors="surrogateescape").read()
        if x.timeout:
            return chk.unsure("timeout of a driver")
        res, status, flags, exc = nodegen.results(x.out)
        det = "exit %s\n%s\n%s" % (x.rc, x.err[-5000:], x.out[-3000:])
        if "DONE" not in flags:
            return chk.violation("generated module can't be run", det, fs)
        cost = 4 if job["args"] else 10
        bad = False
        for st, j in zip(steps, js):
            rc = status.get(st.idx)
            if st.kind in ("begin", "commit", "rollback"):
                if rc or st.kind == "begin" and res.get(st.idx) != PROBE[j["how"]]:
                    chk.violation("transaction: " + st.kind + (" " + j.get("how", "")), "%r %r %r\n%s" % (
                        j, res.get(st.idx), exc.get(st.idx), det), fs)
                    bad = True
                    break
                chk.count("transaction " + st.kind)
                continue
            why = None
            if rc and not (st.fork and not st.want):
                why = ("throws", exc.get(st.idx))
            else:
                why = p09.judge(c, st, res, status)
            name = st.kind if st.kind != "query" else st.op.type
            chk.count(name)
            if why and why[0] == "note":
                chk.count("judged as " + why[1])
                why = None
            if why:
                chk.violation("%s: %s%s" % (name, why[0], " " + why[1].split('"')[3] if why[0] == "throws" else ""),
                              "%s\n%s\n%s\ngot %r\nwant %r\n%s" % (
                    dbrun.describe(st), j, why[1], res.get(st.idx), st.want if st.kind != "query" else
                    [o for o in st.want.candidates(st.s, st.op, st.vals)], det), fs)
                bad = True
                break
            n = res.get(st.idx)
            full = n not in (None, [], 0, -1)
            chk.ev((dbrun.shape(c, st.s, st.op, name)) if full else None,
                   sample={"op": dbrun.describe(st)[:300], "result": str(n)[:200]} if full else None)
        if not bad:
            got, want = dbrun.dump(c, dbp), m.dump()
            costs = {x for x in flags if isinstance(x, int)}
            if costs - {cost}:
                chk.violation("password isn't hashed with the configured cost", "%r, not %r" % (costs, cost), fs)
            elif costs:
                chk.count("password costs")
            if got != want:
                chk.violation("database contents after the script", "%r\n%r\n%s" % (got, want, det), fs)
            else:
                chk.count("databases compared")
        nodegen.keep(d, dirs, i % 4 == 0)
    common.pmap(one, range(scale(450, 6000)))
    nodegen.welltyped(chk, dirs)
    chk.rule = ("distinct shapes (kind, operand types, operators, ordering, limits, grouping, distinct) of operations of "
                "generated modules whose non-empty results were compared with an independent model")
    chk.assumptions = ["better-sqlite3, bcrypt and validator are stand-ins (shims/node) over node:sqlite",
                       "SQLite is trusted to enforce constraints"]


if __name__ == "__main__":
    sys.exit(common.main("P11", main))
