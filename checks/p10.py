#!/usr/bin/env python3
"""P10: roles are enforced by the generated C interface."""
import os, shutil, sqlite3, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, dbmodel, dbops, dbrun, cgen, auditmodel, jsonmodel
from common import scale
from p09 import firsterror, judge


def legal(c, cur, new):
    """May the role change from cur to new?"""
    if cur == new or new == "none" or cur == "default":
        return True
    if cur == "none" or new == "default":
        return False
    return new in c.ancestors(cur)


def main(chk):
    b = common.build()
    root = common.scratch("p10")
    cgen.shim_obj()

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = dbrun.config(r, structs=(1, 4), fields=(1, 5), queries=(1, 4), updates=(0, 2), roles=1.0, rolegrants=r.choice((2, 4, 7)))
        text = cfg.to_text(c)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        fs = {"a.ort": text}
        m = dbmodel.DB(c)
        sc = dbops.Script(c, r, m)
        for k in range(r.choice((5, 12, 20))):
            order = dbrun.topo_fk(c)
            s = order[k % len(order)]
            m.insert(s, sc.insert(s))
        start = m.dump()
        D = cgen.Driver(c)
        steps = script(c, r, m, sc, scale(50, 80), lambda st, after: emit(D, st, after))
        try:
            cgen.generate(b, d, "a.ort", text, safe=r.random() < .3, json_=True, jsmn=False, valid=False)
            src = D.text(leaks=1)
            fs["main.c"] = src
            cgen.compile(d, src)
        except cgen.Failed as e:
            key = e.kind + (": " + firsterror(e.det) if "compile" in e.kind else "")
            chk.violation(key, e.det, fs)
            shutil.rmtree(d, ignore_errors=True)
            return
        dbp = os.path.join(d, "t.db")
        e = dbrun.database(b, d, "a.ort", dbp)
        if e:
            chk.violation("schema can't be created", e, fs)
            return
        dbrun.load(c, dbp, start)
        x = cgen.execute(d, dbp)
        if x.timeout:
            return chk.unsure("timeout of a driver")
        res, status, flags = cgen.results(x.out)
        det = "exit %s\n%s\n%s" % (x.rc, x.err[-5000:], x.out[-3000:])
        if x.san:
            return chk.violation("generated code: " + x.san, det, fs)
        mis = [l for l in x.err.splitlines() if l.startswith("SHIM: ")]
        if mis:
            return chk.violation("misuse of sqlbox: " + " ".join(mis[0].split()[1:5]), det, fs)
        for st in steps:
            why = verdict(c, st, res.get(st.idx), res, status)
            if why:
                chk.violation(why[0], "%s\nroles %r, allowed %r\n%s\n%s" % (
                    dbrun.describe(st), st.role, st.allowed, why[1], det), fs)
                break
            chk.count("%s %s" % (st.kind if st.kind != "query" else st.op.type, "allowed" if st.allowed else "denied"))
            final = st.role[-1]
            chk.ev((st.kind, st.op.type if st.kind == "query" else "", bool(st.allowed),
                    "user" if final not in ("none", "default") else final, len(st.role),
                    len(c.ancestors(final)), len(c.all_roles()) if st.kind == "roles" else
                    tuple(sorted(grant(c, st))))[:7],
                   sample={"op": dbrun.describe(st)[:250], "roles": st.role, "allowed": st.allowed})
        else:
            if "DONE" not in flags:
                chk.violation("process ends early", det, fs)
            elif "LEAK" in flags:
                chk.violation("memory is leaked by the generated code", det, fs)
            else:
                got, want = dbrun.dump(c, dbp), m.dump()
                if got != want:
                    chk.violation("database contents after the script", "%r\n%r\n%s" % (got, want, det), fs)
                else:
                    chk.count("databases compared")
        shutil.rmtree(d, ignore_errors=True)
    common.pmap(one, range(scale(300, 4000)))
    chk.rule = ("distinct (operation kind, verdict, kind of role, length of the path of role changes, depth of the role, "
                "relation of the role to those granted) observed in processes of their own")
    chk.assumptions = ["sqlbox's role checks are those of a stand-in following its manual (shims/c)"]


def grant(c, st):
    """How the roles granted relate to the current one."""
    if st.kind in ("roles", "json"):
        return ()
    g = c.op_roles(st.s)[(st.kind, opindex(st))]
    cur = st.role[-1]
    out = set()
    for x in g:
        out.add("same" if x == cur else "all" if x == "all" else "default" if x == "default" else
                "ancestor" if x in c.ancestors(cur) else "descendant" if cur in c.ancestors(x) else "other")
    return out


def opindex(st):
    if st.kind == "insert":
        return 0
    l = {"query": st.s.searches, "update": st.s.updates, "delete": st.s.deletes}[st.kind]
    return [id(x) for x in l].index(id(st.op))


def emit(D, st, after):
    path = st.role
    if st.kind == "roles":
        code = " ".join("db_role(o, ROLE_%s);" % x for x in path)
        code += " pi(db_role_current(o) == ROLE_%s);" % path[-1]
    elif st.kind == "json":
        code = jsoncode(D, st.s, st.op, st.vals, path[-1], after)
    else:
        code = D.call(st.kind, st.s, st.op, st.vals)
    pre = " ".join("db_role(o, ROLE_%s);" % x for x in path if path != ["default"])
    D.fns.append('static void f%d(int idx) { %s %s printf("R %d "); fflush(stdout); %s printf("\\n"); }' % (
        st.idx, "struct kjsonreq r;" if st.kind == "json" else "", pre if st.kind != "roles" else "", st.idx, code))
    D.body.append("\tforked(%d, f%d);" % (st.idx, st.idx))


def script(c, r, m, sc, n, emit):
    steps = []
    names = [x.name for x, _ in c.all_roles()]
    every = names + ["default", "none"]
    ops = []
    for s in c.structs:
        ops += [("query", s, q) for q in s.searches]
        ops += [("update", s, u) for u in s.updates]
        ops += [("delete", s, u) for u in s.deletes]
        if s.insert:
            ops.append(("insert", s, None))

    def pathto(role):
        """Role changes that end with a role."""
        p = [role]
        if role == "default":
            return p
        below = [x for x in names if role in c.ancestors(x)] if role not in ("none",) else names
        while below and r.random() < .4 and len(p) < 4:
            x = r.choice(below)
            p.insert(0, x)
            below = [y for y in names if x in c.ancestors(y)]
        return p

    def add(kind, s, op, vals, role, allowed, want, after=None):
        st = dbrun.Step()
        st.idx, st.kind, st.s, st.op, st.vals, st.role, st.allowed, st.want = len(steps), kind, s, op, vals, role, allowed, want
        st.fork, st.snap = kind == "delete", None
        steps.append(st)
        emit(st, after)
    pairs = [(o, x) for o in ops for x in every]
    r.shuffle(pairs)
    yes = [p for p in pairs if may(c, p)]
    no = [p for p in pairs if not may(c, p)]
    for k in range(n):
        u = r.random()
        if u < .15:
            path, cur, ok = [], "default", True
            for _ in range(r.choice((1, 2, 2, 3, 4))):
                cand = every
                if r.random() < .6:
                    cand = [x for x in every if legal(c, cur, x)]
                x = r.choice(cand)
                path.append(x)
                if not legal(c, cur, x):
                    ok = False
                    break
                cur = x
            add("roles", None, None, None, path, ok, 1)
            continue
        src = yes if (u < .6 and yes) else no
        if not src:
            continue
        (kind, s, op), role = src[k % len(src)] if r.random() < .7 else r.choice(src)
        allowed = may(c, ((kind, s, op), role))
        path = pathto(role)
        if kind == "query" and allowed and op.type != "count" and op.distinct is None and r.random() < .5:
            v = sc.query(s, op)
            after = [x for x in every if legal(c, role, x)]
            add("json", s, op, v, path, True, dbrun.Frozen(m), r.choice(after) if r.random() < .5 else None)
            continue
        if kind == "insert":
            v = sc.insert(s)
            w = m.insert(s, v) if allowed else None
        elif kind == "query":
            v, w = sc.query(s, op), dbrun.Frozen(m)
        else:
            v = (sc.mods(s, op) if kind == "update" else [], sc.cons(s, op))
            if kind == "delete" and allowed and len(m.rows(s)) > 2 and r.random() < .7 and \
                    len(m.where(s, op.cons, v[1])) > len(m.rows(s)) * .6:
                continue
            w = None
            if allowed:
                w = m.update(s, op, *v) if kind == "update" else m.delete(s, op, v[1])
        add(kind, s, op, v, path, allowed, w)
    return steps


def jsoncode(D, s, q, v, role, after):
    c = D.c
    full = D.call("query", s, q, v)
    n = auditmodel.query_name(s, q)
    i = full.index(n + "(")
    decl = full[:full.index("struct %s" % s.name)] if q.type in ("search", "list") else full[:full.index("int n = 0;")]
    # the argument list as written by the driver generator
    dep, j = 0, i + len(n)
    instr = None
    while True:
        ch = full[j]
        if instr:
            if ch == "\\":
                j += 1
            elif ch == instr:
                instr = None
        elif ch in "\"'":
            instr = ch
        elif ch == "(":
            dep += 1
        elif ch == ")":
            dep -= 1
            if dep == 0:
                break
        j += 1
    call = full[i:j + 1]
    chg = " db_role(o, ROLE_%s);" % after if after else ""
    if q.type == "search":
        return decl + ("struct %(t)s *p = %(call)s;%(chg)s if (p != NULL && db_role_stored(p->priv_store) != ROLE_%(r)s) "
                       "printf(\"(wrong stored role) \"); "
                       "shim_json_open(&r, stdout); kjson_obj_open(&r); if (p != NULL) json_%(t)s_obj(&r, p); "
                       "kjson_obj_close(&r); shim_json_close(&r); db_%(t)s_free(p);"
                       % dict(t=s.name, call=call, chg=chg, r=role))
    if q.type == "list":
        return decl + ("struct %(t)s_q *q = %(call)s;%(chg)s struct %(t)s *p; TAILQ_FOREACH(p, q, _entries) "
                       "if (db_role_stored(p->priv_store) != ROLE_%(r)s) printf(\"(wrong stored role) \"); "
                       "shim_json_open(&r, stdout); kjson_obj_open(&r); json_%(t)s_array(&r, q); "
                       "kjson_obj_close(&r); shim_json_close(&r); db_%(t)s_freeq(q);"
                       % dict(t=s.name, call=call, chg=chg, r=role))
    call = call.replace("cb_" + s.name, "json_%s_iterate" % s.name, 1).replace("&n", "&r", 1)
    return decl + "shim_json_open(&r, stdout); kjson_array_open(&r); %s; kjson_array_close(&r); shim_json_close(&r);" % call


def may(c, p):
    (kind, s, op), role = p
    if role == "none":
        return False
    k = 0 if kind == "insert" else [id(x) for x in {
        "query": s.searches, "update": s.updates, "delete": s.deletes}[kind]].index(id(op))
    return auditmodel.holds(c, role, c.op_roles(s)[(kind, k)])


def verdict(c, st, got, res, status):
    rc = status.get(st.idx)
    empty = got is None or got in (("bad", ""), ("bad", "["))
    name = st.kind if st.kind != "query" else st.op.type
    if not st.allowed:
        if rc is None:
            return "no status", ""
        if rc == 0:
            return ("role change that isn't allowed succeeds" if name == "roles" else
                    "%s by a role that isn't allowed succeeds" % name), "%r" % (got,)
        if not empty and name != "roles":
            return "%s by a role that isn't allowed yields data" % name, "%r" % (got,)
        return None
    if st.kind == "delete":
        w = judge(c, st, res, status)
    elif rc != 0:
        return ("role change that's allowed fails" if name == "roles" else
                "%s by a role that's allowed fails" % name), "status %r" % rc
    elif st.kind == "roles":
        return None if got == 1 else ("current role is wrong", "%r" % got)
    elif st.kind == "json":
        return judgejson(c, st, got)
    else:
        w = judge(c, st, res, status)
    if w and w[0] != "note":
        return "%s: %s" % (name, w[0]), w[1]
    return None


def judgejson(c, st, got):
    s, q = st.s, st.op
    if isinstance(got, tuple):
        return "export isn't valid", "%r" % (got,)
    rows = got[s.name + "_q"] if q.type == "list" else got if q.type == "iterate" else [got[s.name]] if s.name in got else []
    cand = st.want.candidates(s, q, st.vals)
    want = [jsonmodel.exported(c, s, o, st.role[-1]) for o, sure in cand]
    left = list(want)
    for o in rows:
        o = jsonmodel.seen(c, s, o)
        if o not in left:
            for w in want:
                if set(keys(w)) == set(keys(o)):
                    return "export has a wrong value", "%r\n%r" % (o, want)
            extra = [k for k in keys(o) if not any(k in keys(w) for w in want)]
            if extra:
                return "export has a field that's withheld", "%r: %r\n%r" % (extra, o, want)
            return "export lacks a field", "%r\n%r" % (o, want)
        left.remove(o)
    plain = q.type != "search" and not q.limit and not q.offset and q.group is None and all(u for o, u in cand)
    if plain and left:
        return "export lacks rows", "%r\n%r" % (rows, want)
    return None


def keys(o, pre=""):
    out = []
    for k, v in o.items():
        out.append(pre + k)
        if isinstance(v, dict):
            out += keys(v, pre + k + ".")
    return sorted(out)


if __name__ == "__main__":
    sys.exit(common.main("P10", main))
