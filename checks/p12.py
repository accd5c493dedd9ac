#!/usr/bin/env python3
"""P12: roles are enforced by the generated Node.js interface."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, dbmodel, dbops, dbrun, nodegen
from common import scale
import p10


def main(chk):
    b = common.build()
    root = common.scratch("p12")
    dirs = []

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = dbrun.config(r, structs=(1, 4), fields=(1, 5), queries=(1, 4), updates=(0, 2), roles=1.0, rolegrants=r.choice((2, 4, 7)))
        text = cfg.to_text(c)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        fs = {"a.ort": text}
        m = dbmodel.DB(c)
        sc = dbops.Script(c, r, m)
        for k in range(r.choice((5, 12, 20))):
            order = dbrun.topo_fk(c)
            s = order[k % len(order)]
            m.insert(s, sc.insert(s))
        start = m.dump()
        js = []

        def emit(st, after):
            if st.kind == "roles":
                x = {"k": "roles"}
            else:
                x = nodegen.call(c, "query" if st.kind == "json" else st.kind, st.s, st.op, st.vals)
                if st.kind == "json":
                    x["export"], x["after"] = True, after
            x["idx"], x["role"] = st.idx, st.role
            js.append(x)
        steps = p10.script(c, r, m, sc, scale(50, 80), emit)
        try:
            nodegen.generate(b, d, "a.ort", text, flags=())
        except nodegen.Failed as e:
            chk.violation(e.kind, e.det, fs)
            shutil.rmtree(d, ignore_errors=True)
            return
        fs["ort.ts"] = open(os.path.join(d, "ort.ts"), encoding="utf-8", errors="surrogateescape").read()
        dbp = os.path.join(d, "t.db")
        e = dbrun.database(b, d, "a.ort", dbp)
        if e:
            return chk.violation("schema can't be created", e, fs)
        dbrun.load(c, dbp, start)
        x = nodegen.execute(d, {"db": dbp, "types": nodegen.types(c), "steps": js, "args": None})
        if x.timeout:
            return chk.unsure("timeout of a driver")
        res, status, flags, exc = nodegen.results(x.out)
        det = "exit %s\n%s\n%s" % (x.rc, x.err[-5000:], x.out[-3000:])
        if "DONE" not in flags:
            return chk.violation("generated module can't be run", det, fs)
        for st, j in zip(steps, js):
            got = res.get(st.idx)
            name = st.kind if st.kind != "query" else st.op.type
            if st.kind == "json" and isinstance(got, list):
                t = st.s.name
                got = {t + "_q": got} if st.op.type == "list" else got if st.op.type == "iterate" else {t: got[0]} if got else {}
            why = None
            if status.get(st.idx) == 1:
                w = exc.get(st.idx, "")
                if not (st.kind == "delete" and st.allowed and not st.want and "SQLITE_CONSTRAINT" in w):
                    why = "%s throws %s" % (name, w.split('"')[3] if w.count('"') > 3 else ""), w
            why = why or p10.verdict(c, st, got, res, status)
            if why:
                chk.violation(why[0], "%s\n%s\nroles %r, allowed %r\n%s\n%s" % (
                    dbrun.describe(st), j, st.role, st.allowed, why[1], det), fs)
                break
            chk.count("%s %s" % (name, "allowed" if st.allowed else "denied"))
            final = st.role[-1]
            chk.ev((st.kind, st.op.type if st.kind == "query" else "", bool(st.allowed),
                    "user" if final not in ("none", "default") else final, len(st.role),
                    len(c.ancestors(final)), len(c.all_roles()) if st.kind == "roles" else
                    tuple(sorted(p10.grant(c, st)))),
                   sample={"op": dbrun.describe(st)[:250], "roles": st.role, "allowed": st.allowed})
        else:
            got, want = dbrun.dump(c, dbp), m.dump()
            if got != want:
                chk.violation("database contents after the script", "%r\n%r\n%s" % (got, want, det), fs)
            else:
                chk.count("databases compared")
        nodegen.keep(d, dirs, i % 6 == 0)
    common.pmap(one, range(scale(450, 6000)))
    nodegen.welltyped(chk, dirs)
    chk.rule = ("distinct (operation kind, verdict, kind of role, length of the path of role changes, depth of the role, "
                "relation of the role to those granted) observed, process.abort() being recorded")
    chk.assumptions = ["better-sqlite3 and bcrypt are stand-ins (shims/node) over node:sqlite",
                       "process.abort() is replaced by an exception that ends the operation"]


if __name__ == "__main__":
    sys.exit(common.main("P12", main))
