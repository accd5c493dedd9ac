#!/usr/bin/env python3
"""P20: the generated Rust interface does what the configuration says."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, dbmodel, dbops, dbrun, rustgen
from common import scale
import p09, p10

# Names that Rust reserves and configurations may use.
WORDS = ("fn", "impl", "trait", "mod", "mut", "pub", "type", "loop", "move", "box", "use", "crate2", "where2", "dyn", "override",
         "unsafe", "async", "await", "become", "try", "unsized", "typeof", "macro", "let", "yield", "priv")


def results(out):
    """idx -> result; idx -> status; flags; idx -> error; costs."""
    from nodegen import json
    res, st, flags, exc, costs = {}, {}, set(), {}, set()
    for ln in out.split("\n"):
        w = ln.split(" ", 2)
        if w[0] == "R" and len(w) == 3:
            try:
                res[int(w[1])] = json.loads(w[2])
            except ValueError:
                res[int(w[1])] = ("bad", w[2])
        elif w[0] == "E":
            x = w[2].split(" ", 1)
            st[int(w[1])] = int(x[0])
            if len(x) > 1:
                exc[int(w[1])] = x[1]
        elif w[0] == "C":
            costs.add(int(w[1]))
        elif w[0] == "DONE":
            flags.add("DONE")
    return res, st, flags, exc, costs


def short(e):
    return (e or "").split("{")[0].split("\"")[0][:60]


def main(chk):
    b = common.build()
    root = common.scratch("p20")
    rustgen.crates()

    def prepare(i, c, d, fs, D):
        """Generate, compile; None or the violation."""
        try:
            rustgen.generate(b, d, "a.ort", fs["a.ort"])
            src = D.text()
            fs["main.rs"] = src
            rustgen.compile(d, src)
        except rustgen.Failed as e:
            p = os.path.join(d, "lib.rs")
            if os.path.exists(p):
                fs["lib.rs"] = open(p, encoding="utf-8", errors="surrogateescape").read()
            chk.violation(e.kind, e.det, fs)
            return False
        fs["lib.rs"] = open(os.path.join(d, "lib.rs"), encoding="utf-8", errors="surrogateescape").read()
        return True

    def plain(i):
        r = chk.sub(i)
        c = dbrun.config(r, structs=(1, 4) if i % 3 else (2, 6), words=WORDS if i % 5 == 0 else ())
        d = os.path.join(root, str(i))
        os.makedirs(d)
        fs = {"a.ort": cfg.to_text(c)}
        m, steps = dbrun.plan(c, r, r.choice((8, 20, 30)), scale(60, 90), trans=False)
        cost = r.choice((0, 4, 7))
        D = rustgen.Driver(c, cost)
        rows = []
        for st in steps:
            D.add(st.idx, D.call(st.kind, st.s, st.op, st.vals))
            if st.kind == "query" and st.op.type != "count" and st.op.distinct is None and r.random() < .3:
                x = dbrun.Step()
                x.idx, x.kind, x.s, x.op, x.vals, x.want, x.role = len(steps) + len(rows), "json", st.s, st.op, st.vals, st.want, [None]
                rows.append(x)
                D.add(x.idx, D.call("query", st.s, st.op, st.vals, export=True))
        if not prepare(i, c, d, fs, D):
            return
        dbp = os.path.join(d, "t.db")
        e = dbrun.database(b, d, "a.ort", dbp)
        if e:
            return chk.violation("schema can't be created", e, fs)
        x = rustgen.execute(d, dbp)
        if x.timeout:
            return chk.unsure("timeout of a driver")
        res, status, flags, exc, costs = results(x.out)
        det = "exit %s\n%s\n%s" % (x.rc, x.err[-5000:], x.out[-3000:])
        if "DONE" not in flags:
            return chk.violation("generated module ends the process", det, fs)
        if "SHIM: " in x.err:
            return chk.violation("misuse of rusqlite", det, fs)
        for st in sorted(steps + rows, key=lambda s: s.idx):
            name = st.kind if st.kind != "query" else st.op.type
            rc = status.get(st.idx)
            if st.kind == "json":
                why = (short(exc.get(st.idx)), exc.get(st.idx)) if rc else p10.judgejson(c, st, wrap(st, res.get(st.idx)))
            elif rc and not (st.kind == "delete" and not st.want and "ConstraintViolation" in exc.get(st.idx, "")):
                why = ("fails: " + short(exc.get(st.idx)), exc.get(st.idx))
            elif st.kind == "delete":
                why = None if bool(rc) != bool(st.want) else ("constraint isn't reported", "")
            else:
                why = p09.judge(c, st, res, status)
            chk.count(name)
            if why and why[0] == "note":
                chk.count("judged as " + why[1])
                why = None
            if why:
                return chk.violation("%s: %s" % (name, why[0]), "%s\n%s\ngot %r\nwant %r\n%s" % (
                    dbrun.describe(st), why[1], res.get(st.idx), st.want if st.kind not in ("query", "json") else
                    [o for o in st.want.candidates(st.s, st.op, st.vals)], det), fs)
            n = res.get(st.idx)
            full = n not in (None, [], 0, -1)
            chk.ev((name,) + dbrun.shape(c, st.s, st.op, name) if full else None,
                   sample={"op": dbrun.describe(st)[:300], "result": str(n)[:200]} if full else None)
        if costs - {cost or 12}:
            return chk.violation("password isn't hashed with the configured cost", "%r, not %r" % (costs, cost), fs)
        if costs:
            chk.count("password costs")
        got, want = dbrun.dump(c, dbp), m.dump()
        if got != want:
            chk.violation("database contents after the script", "%r\n%r\n%s" % (got, want, det), fs)
        else:
            chk.count("databases compared")

    def roles(i):
        r = chk.sub(i, "roles")
        c = dbrun.config(r, structs=(1, 4), fields=(1, 5), queries=(1, 4), updates=(0, 2), roles=1.0, rolegrants=r.choice((2, 4, 7)),
                         words=WORDS if i % 5 == 0 else ())
        d = os.path.join(root, "r%d" % i)
        os.makedirs(d)
        fs = {"a.ort": cfg.to_text(c)}
        m = dbmodel.DB(c)
        sc = dbops.Script(c, r, m)
        for k in range(r.choice((5, 12, 20))):
            order = dbrun.topo_fk(c)
            s = order[k % len(order)]
            m.insert(s, sc.insert(s))
        start = m.dump()
        D = rustgen.Driver(c, 4)

        def emit(st, after):
            x = None if st.kind == "roles" else D.call("query" if st.kind == "json" else st.kind, st.s, st.op, st.vals,
                                                       export=st.kind == "json", after=after if st.op is not None and
                                                       getattr(st.op, "type", None) != "iterate" else None)
            D.add(st.idx, D.inrole(st.role, x, st.kind == "roles"))
        steps = p10.script(c, r, m, sc, scale(50, 80), emit)
        if not prepare(i, c, d, fs, D):
            return
        dbp = os.path.join(d, "t.db")
        e = dbrun.database(b, d, "a.ort", dbp)
        if e:
            return chk.violation("schema can't be created", e, fs)
        dbrun.load(c, dbp, start)
        x = rustgen.execute(d, dbp)
        if x.timeout:
            return chk.unsure("timeout of a driver")
        res, status, flags, exc, costs = results(x.out)
        det = "exit %s\n%s\n%s" % (x.rc, x.err[-5000:], x.out[-3000:])
        if "DONE" not in flags:
            return chk.violation("generated module ends the process", det, fs)
        for st in steps:
            got = res.get(st.idx)
            name = st.kind if st.kind != "query" else st.op.type
            if st.kind == "json":
                got = wrap(st, got)
            why = None
            if status.get(st.idx) in (1, 101):
                w = exc.get(st.idx, "")
                if not (st.kind == "delete" and st.allowed and not st.want and "ConstraintViolation" in w):
                    why = "%s fails: %s" % (name, short(w)), w
            why = why or p10.verdict(c, st, got, res, status)
            if why:
                return chk.violation("roles: " + why[0], "%s\nroles %r, allowed %r\n%s\n%s" % (
                    dbrun.describe(st), st.role, st.allowed, why[1], det), fs)
            chk.count("%s %s" % (name, "allowed" if st.allowed else "denied"))
            final = st.role[-1]
            chk.ev(("roles", st.kind, st.op.type if st.kind == "query" else "", bool(st.allowed),
                    "user" if final not in ("none", "default") else final, len(st.role),
                    len(c.ancestors(final)), len(c.all_roles()) if st.kind == "roles" else tuple(sorted(p10.grant(c, st)))),
                   sample={"op": dbrun.describe(st)[:250], "roles": st.role, "allowed": st.allowed})
        got, want = dbrun.dump(c, dbp), m.dump()
        if got != want:
            chk.violation("roles: database contents after the script", "%r\n%r\n%s" % (got, want, det), fs)
        else:
            chk.count("databases compared")

    def one(i):
        if chk.too_many():
            return
        try:
            (roles if i % 4 == 3 else plain)(i)
        finally:
            for x in (str(i), "r%d" % i):
                shutil.rmtree(os.path.join(root, x), ignore_errors=True)
    common.pmap(one, range(scale(260, 4000)))
    chk.rule = ("distinct shapes (kind, operand types, operators, ordering, limits, grouping, distinct) of operations of "
                "compiled Rust interfaces whose non-empty results were compared with an independent model")
    chk.assumptions = ["rusqlite, libsqlite3-sys, bcrypt, base64, num-traits and num-derive are stand-ins (shims/rust)",
                       "SQLite is trusted to enforce constraints"]


def wrap(st, got):
    """Exports in the form other languages give them."""
    if not isinstance(got, list):
        return got if isinstance(got, tuple) else ("bad", got)
    t = st.s.name
    return {t + "_q": got} if st.op.type == "list" else got if st.op.type == "iterate" else {t: got[0]} if got else {}


if __name__ == "__main__":
    sys.exit(common.main("P20", main))
