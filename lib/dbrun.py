"""Running operation scripts on generated interfaces, judged by dbmodel."""
import os, random, sqlite3
import common, cfg, gen, dbmodel, dbops, sqlmodel
from cfg import *


def prune(c, r):
    """Leave out what the interface descriptions leave open."""
    for s in c.structs:
        for q in s.searches:
            if q.group and len(q.group[0]) > 1:
                q.group = None
        for u in s.updates:
            u.mods = [(f, "set" if (s.f(f).type in ("blob", "enum", "bits") and m != "set") else m) for f, m in u.mods]
        seen = set()
        for u in s.updates:
            k = (u.name, tuple(u.mods), tuple(u.cons))
            if u.name is None and k in seen:
                u.name = "upd%d" % len(seen)
            seen.add(k)
    return c


OPTS = dict(structs=(1, 4), fields=(1, 6), roles=0, queries=(1, 6), updates=(0, 3), deletes=(0, 2), text="plain",
            docs=.1, insert=.95, nested=.8, uniques=.35, named=.7, defaults=.2, limits=.1)


def config(r, **kw):
    o = dict(OPTS)
    o.update(kw)
    return prune(gen.gen_config(r.randrange(10 ** 9), gen.Opts(**o)), r)


def shape(c, s, op, kind):
    """Signature of what an operation exercises."""
    if kind == "insert":
        return ("insert", tuple(sorted({f.type for f in s.fields})))
    if kind in ("update", "delete"):
        return (kind, tuple(sorted((s.f(f).type, m) for f, m in op.mods)),
                tuple(sorted((s.f(f).type, o) for f, o in op.cons)))
    return (op.type, tuple(sorted((len(p), c.path_field(s, p)[1].type, o) for p, o in op.terms)), len(op.order),
            bool(op.limit), bool(op.offset), op.group and op.group[1], op.distinct is not None and len(op.distinct))


def database(b, d, name, path):
    """Create the database with ort-sql's schema; error text or None."""
    r = common.run([os.path.join(b, "ort-sql"), name], cwd=d)
    if r.rc:
        return "ort-sql: " + r.err[:500]
    if os.path.exists(path):
        os.unlink(path)
    db = sqlite3.connect(path)
    e = sqlmodel.sqlscript(db, r.out)
    db.execute("PRAGMA journal_mode=MEMORY")
    db.close()
    return e


def load(c, path, rows):
    """Fill a database with rows as dump() returns them."""
    db = sqlite3.connect(path)
    db.execute("PRAGMA foreign_keys=OFF")
    for n, l in rows.items():
        for o in l:
            db.execute("INSERT INTO %s (%s) VALUES (%s)" % (n, ",".join(o), ",".join("?" * len(o))), list(o.values()))
    db.commit()
    db.close()


def dump(c, path):
    db = sqlite3.connect(path)
    db.text_factory = lambda x: x.decode("utf-8", "surrogateescape")
    out = {}
    for s in c.structs:
        real = [f.name for f in s.fields if f.type != "struct"]
        out[s.name] = [dict(zip(real, x)) for x in db.execute(
            "SELECT %s FROM %s ORDER BY _rowid_" % (",".join(real), s.name))]
    db.close()
    return out


class Step:
    __slots__ = ("idx", "kind", "s", "op", "vals", "want", "snap", "fork", "role", "allowed")


def plan(c, r, nins, nops, trans=True, forks=True):
    """Steps with the model's verdicts.  Transactions appear as steps of kind
    'begin', 'commit' and 'rollback'."""
    m = dbmodel.DB(c)
    sc = dbops.Script(c, r, m)
    steps = []
    ins = [s for s in topo_fk(c) if s.insert]

    def add(kind, s=None, op=None, vals=None, want=None, fork=False):
        st = Step()
        st.idx, st.kind, st.s, st.op, st.vals, st.want, st.fork = len(steps), kind, s, op, vals, want, fork
        st.snap = None
        st.role = st.allowed = None
        steps.append(st)
        return st
    for k in range(nins):
        if not ins:
            break
        s = ins[k % len(ins)] if k < 2 * len(ins) else r.choice(ins)
        v = sc.insert(s)
        add("insert", s, None, v, m.insert(s, v))
    ops = []
    for s in c.structs:
        ops += [("query", s, q) for q in s.searches] * 3
        ops += [("update", s, u) for u in s.updates] * 2
        ops += [("delete", s, u) for u in s.deletes]
        if s.insert:
            ops.append(("insert", s, None))
    intr = None
    pending = r.sample(ops, len(ops)) if ops else []
    for _ in range(nops):
        if not ops:
            break
        if trans and intr is None and r.random() < .06:
            intr = [r.randrange(1, 6), r.random() < .5, len(steps)]
            add("begin", None, None, (len(steps) + 1, r.choice((-1, 0, 1))))
            m.db.execute("BEGIN")
        kind, s, op = pending.pop() if pending else r.choice(ops)
        if kind == "insert":
            v = sc.insert(s)
            add(kind, s, None, v, m.insert(s, v))
        elif kind == "query":
            v = sc.query(s, op)
            st = add(kind, s, op, v)
            st.want = Frozen(m)
        elif kind == "update":
            v = (sc.mods(s, op), sc.cons(s, op))
            add(kind, s, op, v, m.update(s, op, *v))
        elif intr is None:
            v = ([], sc.cons(s, op))
            rows = len(m.rows(s))
            if rows and len(m.where(s, op.cons, v[1])) > rows * .6 and r.random() < .7:
                continue
            add(kind, s, op, v, m.delete(s, op, v[1]), fork=True)
        if intr is not None:
            intr[0] -= 1
            if intr[0] == 0:
                add("commit" if intr[1] else "rollback", None, None, intr[2] + 1)
                m.db.execute("COMMIT" if intr[1] else "ROLLBACK")
                m.cache.clear()
                intr = None
    if intr is not None:
        add("rollback", None, None, intr[2] + 1)
        m.db.execute("ROLLBACK")
        m.cache.clear()
    return m, steps


class Frozen(dbmodel.DB):
    """The model's contents at one moment, for judging a query later."""

    def __init__(self, m):
        self.c = m.c
        self.cache = {s.name: m.rows(s) for s in m.c.structs}


def topo_fk(c):
    """Structures after those their foreign keys refer to."""
    out, seen = [], set()

    def rec(s):
        if s.name in seen:
            return
        seen.add(s.name)
        for f in s.fields:
            if f.ref and f.ref[0] != s.name:
                rec(c.s(f.ref[0]))
        out.append(s)
    for s in c.structs:
        rec(s)
    return out


def describe(st):
    o = st.op
    return "#%d %s %s %s args %r" % (st.idx, st.kind, st.s.name if st.s else "", o, st.vals)
