#!/usr/bin/env python3
"""P09: the generated C interface does what the configuration says."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, dbmodel, dbops, dbrun, cgen
from common import scale


def main(chk):
    b = common.build()
    root = common.scratch("p09")
    cgen.shim_obj()

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = dbrun.config(r, structs=(1, 4) if i % 3 else (2, 6))
        text = cfg.to_text(c)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        fs = {"a.ort": text}
        try:
            cgen.generate(b, d, "a.ort", text, safe=r.random() < .4, json_=r.random() < .5, jsmn=r.random() < .5,
                          valid=r.random() < .5)
            m, steps = dbrun.plan(c, r, r.choice((8, 20, 30)), scale(60, 90))
            D = cgen.Driver(c)
            for st in steps:
                if st.kind == "begin":
                    n = ("DB_TRANS_OPEN_EXCLUSIVE", "DB_TRANS_OPEN_DEFERRED", "DB_TRANS_OPEN_IMMEDIATE")[st.vals[1] + 1]
                    D.body.append("\t%s(o, %d);" % (n, st.vals[0]))
                elif st.kind in ("commit", "rollback"):
                    D.body.append("\tdb_trans_%s(o, %d);" % (st.kind, st.vals))
                else:
                    D.add(st.idx, D.call(st.kind, st.s, st.op, st.vals), fork=st.fork)
            src = D.text()
            fs["main.c"] = src
            cgen.compile(d, src)
        except cgen.Failed as e:
            key = e.kind
            if "compile" in key:
                key += ": " + firsterror(e.det)
            chk.violation(key, e.det, fs)
            shutil.rmtree(d, ignore_errors=True)
            return
        dbp = os.path.join(d, "t.db")
        e = dbrun.database(b, d, "a.ort", dbp)
        if e:
            chk.violation("schema can't be created", e, fs)
            return
        x = cgen.execute(d, dbp)
        if x.timeout:
            return chk.unsure("timeout of a driver")
        res, status, flags = cgen.results(x.out)
        det = "exit %s\n%s\n%s" % (x.rc, x.err[-5000:], x.out[-3000:])
        if x.san:
            return chk.violation("generated code: " + x.san, det, fs)
        mis = [l for l in x.err.splitlines() if l.startswith("SHIM: ")]
        if mis:
            chk.violation("misuse of sqlbox: " + " ".join(mis[0].split()[1:5]), det, fs)
            return
        bad = False
        for st in steps:
            if st.kind in ("begin", "commit", "rollback"):
                chk.count("transaction " + st.kind)
                continue
            why = judge(c, st, res, status)
            chk.count(st.kind if st.kind != "query" else st.op.type)
            if why and why[0] == "note":
                chk.count("judged as " + why[1])
                why = None
            if why:
                chk.violation("%s: %s" % (st.kind if st.kind != "query" else st.op.type, why[0]),
                              "%s\n%s\ngot %r\nwant %r\n%s" % (dbrun.describe(st), why[1], res.get(st.idx),
                                                             st.want if st.kind != "query" else
                                                             [o for o in st.want.candidates(st.s, st.op, st.vals)], det), fs)
                bad = True
                break
            n = res.get(st.idx)
            full = n not in (None, [], 0, -1)
            chk.ev((dbrun.shape(c, st.s, st.op, st.kind if st.kind != "query" else st.op.type)) if full else None,
                   sample={"op": dbrun.describe(st)[:300], "result": str(n)[:200]} if full else None)
            if isinstance(n, list):
                chk.count("rows returned", len(n))
        if bad:
            pass
        elif "DONE" not in flags:
            chk.violation("process ends during allowed operations", det, fs)
        elif "LEAK" in flags:
            chk.violation("memory is leaked by the generated code", det, fs)
        else:
            got, want = dbrun.dump(c, dbp), m.dump()
            if got != want:
                chk.violation("database contents after the script", "%r\n%r\n%s" % (got, want, det), fs)
            else:
                chk.count("databases compared")
        shutil.rmtree(d, ignore_errors=True)
    common.pmap(one, range(scale(450, 6000)))
    chk.rule = ("distinct shapes (kind, operand types, operators, ordering, limits, grouping, distinct) of operations of "
                "compiled interfaces whose non-empty results were compared with an independent model")
    chk.assumptions = ["sqlbox, kcgi and crypt are stand-ins (shims/c) following their manuals",
                       "SQLite is trusted to enforce constraints"]


def firsterror(e):
    import re
    for l in e.splitlines():
        if " error: " in l:
            return re.sub(r"[‘'`][^’']*[’']", "_", l.split(" error: ")[1])
        if "undefined reference" in l:
            return "undefined reference"
    return "?"


def judge(c, st, res, status):
    """None, ("note", what) or (problem, detail)."""
    if st.fork:
        rc = status.get(st.idx)
        if st.want:
            return None if rc == 0 else ("fails where it's allowed", "status %r" % rc)
        return None if rc not in (0, None, 99) else ("constraint isn't reported", "status %r" % rc)
    if st.idx not in res:
        return ("no result", "")
    got = res[st.idx]
    if st.kind == "insert":
        return None if got == st.want else ("returns the wrong identifier" if min(got, st.want) > 0 else
                                            "accepted against a constraint" if got > 0 else "refused", "")
    if st.kind == "update":
        return None if got == int(st.want) else ("returns the wrong result", "")
    if st.op.type != "count":
        t = st.s
        for p in st.op.distinct or ():
            t = c.target(t, t.f(p))
        if not isinstance(got, list):
            return ("unreadable result", "")
        got = [cgen.obj(c, t, o) for o in got]
    p, note = dbmodel.check_query(st.want, st.s, st.op, st.vals, got)
    if p:
        return (p, repr(got))
    return ("note", note) if note else None


if __name__ == "__main__":
    sys.exit(common.main("P09", main))
