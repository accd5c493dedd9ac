"""Reference model of what the generated database interfaces must do.

State changes run on a private database whose schema is written here from the
configuration (no code or output of the project is used); queries are answered
in plain Python over its rows, not with SQL."""
import re, sqlite3
import cfg, sqlmodel
from cfg import date_epoch

HASHED = ("eq", "neq")


def fnv(s, h):
    for b in s:
        h = ((h ^ b) * 1099511628211) & (2 ** 64 - 1)
    return h


def pwhash(p):
    b = p.encode("utf-8", "surrogateescape")
    return "$2b$10$%016x%016x" % (fnv(b, 14695981039346656037), fnv(b, 99))


def literal(c, f):
    d = f.default
    if f.type == "date":
        return str(date_epoch(d) if isinstance(d, tuple) else d)
    if f.type == "real":
        return repr(float(d))
    if f.type == "enum":
        return str(c.e(f.tname).values()[d])
    if f.type in ("text", "email"):
        return "'" + d.replace('\\"', '"').replace("'", "''") + "'"
    return str(d)


def ddl(c):
    out = []
    for s in c.structs:
        cols, fks = [], []
        for f in s.fields:
            if f.type == "struct":
                continue
            t = "%s %s" % (f.name, sqlmodel.SQLTYPE[f.type])
            if f.rowid:
                t += " PRIMARY KEY"
            elif not f.null:
                t += " NOT NULL"
            if f.default is not None:
                t += " DEFAULT " + literal(c, f)
            cols.append(t)
            if f.ref:
                fks.append("FOREIGN KEY(%s) REFERENCES %s(%s) ON DELETE %s ON UPDATE %s" % (
                    f.name, f.ref[0], f.ref[1], sqlmodel.ACT[f.actdel], sqlmodel.ACT[f.actup]))
        out.append("CREATE TABLE %s (%s)" % (s.name, ", ".join(cols + fks)))
        for f in s.fields:
            if f.type != "struct" and f.unique and not f.rowid:
                out.append("CREATE UNIQUE INDEX u_%s__%s ON %s(%s)" % (s.name, f.name, s.name, f.name))
        for i, u in enumerate(s.uniques):
            out.append("CREATE UNIQUE INDEX m_%s__%d ON %s(%s)" % (s.name, i, s.name, ",".join(u)))
    return out


def conv(f, v):
    """Value as stored."""
    if v is None:
        return None
    if f.type == "password":
        return pwhash(v)
    if f.type == "real":
        return float(v)
    return v


def skey(v):
    """SQLite's ordering of values of one column."""
    if v is None:
        return (0, 0)
    if isinstance(v, str):
        return (1, v.encode("utf-8", "surrogateescape"))
    return (1, v)


def like(v, pat):
    rx = ""
    for ch in pat:
        rx += ".*" if ch == "%" else "." if ch == "_" else re.escape(ch)

    def low(s):
        return "".join(chr(ord(x) + 32) if "A" <= x <= "Z" else x for x in s)
    return re.fullmatch(low(rx) if False else rx_low(pat), low(v), re.S) is not None


def rx_low(pat):
    rx = ""
    for ch in pat:
        if "A" <= ch <= "Z":
            ch = chr(ord(ch) + 32)
        rx += ".*" if ch == "%" else "." if ch == "_" else re.escape(ch)
    return rx


def term(op, v, a):
    if op == "isnull":
        return v is None
    if op == "notnull":
        return v is not None
    if v is None or a is None:
        return False
    if op in ("eq", "streq"):
        return v == a
    if op in ("neq", "strneq"):
        return v != a
    if op == "like":
        return like(v, a)
    if op == "and":
        return (v & a) != 0
    if op == "or":
        return (v | a) != 0
    x, y = skey(v), skey(a)
    return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]


class DB:
    def __init__(self, c):
        self.c = c
        self.db = sqlite3.connect(":memory:", isolation_level=None)
        for x in ddl(c):
            self.db.execute(x)
        self.db.execute("PRAGMA foreign_keys=ON")
        self.cache = {}

    # -- state
    def exec(self, sql, args):
        self.cache.clear()
        try:
            return self.db.execute(sql, args)
        except sqlite3.IntegrityError:
            return None

    def insert(self, s, vals):
        """vals: values of the real non-rowid fields in order; id or -1."""
        fs = [f for f in s.fields if f.type != "struct" and not f.rowid]
        if not fs:
            cur = self.exec("INSERT INTO %s DEFAULT VALUES" % s.name, [])
        else:
            cur = self.exec("INSERT INTO %s (%s) VALUES (%s)" % (
                s.name, ",".join(f.name for f in fs), ",".join("?" * len(fs))),
                [conv(f, v) for f, v in zip(fs, vals)])
        return -1 if cur is None else cur.lastrowid

    def where(self, s, cons, args):
        """rowids matched by (field, operator) constraints."""
        out = []
        for rid, r in self.rows(s):
            it = iter(args)
            if all(term(op, r[f], None if op in cfg.UNARY else next(it)) for f, op in cons):
                out.append(rid)
        return out

    def update(self, s, u, mods, cons):
        """mods, cons: argument values.  True, or False on a constraint."""
        ms = u.mods or [(f.name, "set") for f in s.fields if f.type != "struct" and not f.rowid]
        ids = self.where(s, u.cons, cons)
        sets, args = [], []
        for (fn, m), v in zip(ms, mods):
            f = s.f(fn)
            v = v if m == "strset" else conv(f, v)
            e = {"set": "?", "strset": "?", "inc": "%s + ?" % fn, "dec": "%s - ?" % fn,
                 "concat": "ifnull(%s,'') || ?" % fn}[m]
            sets.append("%s = %s" % (fn, e))
            args.append(v)
        return self.exec("UPDATE %s SET %s WHERE _rowid_ IN (%s)" % (
            s.name, ",".join(sets), ",".join(map(str, ids))), args) is not None

    def delete(self, s, u, cons):
        ids = self.where(s, u.cons, cons)
        return self.exec("DELETE FROM %s WHERE _rowid_ IN (%s)" % (s.name, ",".join(map(str, ids))), []) is not None

    # -- rows
    def rows(self, s):
        if s.name not in self.cache:
            real = [f.name for f in s.fields if f.type != "struct"]
            self.cache[s.name] = [(x[0], dict(zip(real, x[1:]))) for x in self.db.execute(
                "SELECT _rowid_,%s FROM %s ORDER BY _rowid_" % (",".join(real), s.name))]
        return self.cache[s.name]

    def build(self, s, r):
        """Object as returned: nested structures filled in, None for unset."""
        o = {}
        for f in s.fields:
            if f.type != "struct":
                o[f.name] = r[f.name]
                continue
            src = s.f(f.src)
            t = self.c.s(src.ref[0])
            v = r[src.name]
            hit = [x for _, x in self.rows(t) if x[src.ref[1]] == v] if v is not None else []
            assert len(hit) <= 1 and (hit or v is None or True)
            o[f.name] = self.build(t, hit[0]) if hit else None
        return o

    def dump(self):
        return {s.name: [r for _, r in self.rows(s)] for s in self.c.structs}

    # -- queries
    def candidates(self, s, q, args):
        """(object, order key) of all rows matched by the terms, before
        ordering and limits; password hashes checked separately."""
        out = []
        for _, r in self.rows(s):
            o = self.build(s, r)
            ok, sure, it = True, True, iter(args)
            for p, op in q.terms:
                a = None if op in cfg.UNARY else next(it)
                f = self.c.path_field(s, p)[1]
                v = get(o, p)
                if f.type == "password" and op in HASHED:
                    if v is None or a is None:
                        # a null hash never matches
                        sure = sure and False
                    elif op == "eq":
                        sure = sure and v == pwhash(a)
                    else:
                        sure = sure and v != pwhash(a)
                    continue
                if not term(op, v, a):
                    ok = False
            if ok:
                out.append((o, sure))
        return out

    def haspass(self, s, q):
        return any(self.c.path_field(s, p)[1].type == "password" and op in HASHED for p, op in q.terms)


def get(o, path):
    for p in path:
        if o is None:
            return None
        o = o[p]
    return o


def okey(o, order):
    out = []
    for p, d in order:
        k = skey(get(o, p))
        out.append((k, d))
    return out


class Rev:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return o.v < self.v

    def __eq__(self, o):
        return self.v == o.v


def sortkey(o, order):
    return [Rev(skey(get(o, p))) if d == "desc" else skey(get(o, p)) for p, d in order]


def ident(o):
    return repr(o)


def group_sets(rows, g):
    """All groups' extremal rows: {group value: [rows]}."""
    gp, kind, ap = g
    best = {}
    for o in rows:
        k = repr(get(o, gp))
        a = skey(get(o, ap))
        if k not in best or (a > best[k][0] if kind == "maxrow" else a < best[k][0]):
            best[k] = (a, [o])
        elif a == best[k][0]:
            best[k][1].append(o)
    return {k: v[1] for k, v in best.items()}


def flat_distinct(c, t, o):
    """What DISTINCT sees of an object: nested null references aren't part."""
    out = []
    for f in t.fields:
        if f.type != "struct":
            out.append(o[f.name])
        elif not t.f(f.src).null:
            out.append(flat_distinct(c, c.target(t, f), o[f.name]))
    return out


def check_query(m, s, q, args, got):
    """Judge a query's result.  `got` is a list of objects (search: zero or
    one; count: an integer).  Returns (problem or None, note)."""
    c = m.c
    cand = m.candidates(s, q, args)
    rows = [o for o, sure in cand]
    note = None
    if q.group is not None:
        allr = [m.build(s, r) for _, r in m.rows(s)]
        whole = group_sets(allr, q.group)
        res = group_sets(rows, q.group)
        ext = {}
        ids = {ident(o) for o in rows}
        # rows may be chosen within the results or within the whole table
        # before the terms apply: both readings are accepted.
        alts = []
        for gs in (res, whole):
            vis = {k: [o for o in v if ident(o) in ids] for k, v in gs.items()}
            alts.append(({k: v for k, v in vis.items() if v}, gs))
        probs = []
        for alt, full in alts:
            p, n = judge_groups(m, s, q, alt, full, got)
            if p is None:
                return None, n
            probs.append(p)
        return probs[0], None
    if q.distinct is not None:
        t = s
        for p in q.distinct:
            t = c.target(t, t.f(p))
        seen, d = set(), []
        for o in rows:
            x = get(o, q.distinct) if q.distinct else o
            k = repr(flat_distinct(c, t, x))
            if k not in seen:
                seen.add(k)
                d.append(x)
        rows = d
        sel = "distinct"
    else:
        sel = "plain"
    if q.type == "count":
        return (None if got == len(rows) else "count is %r, not %d" % (got, len(rows))), None
    if m.haspass(s, q):
        good = [o for o, sure in cand if sure]
        gi, wi = sorted(map(ident, got)), sorted(map(ident, good))
        for x in gi:
            if x not in wi:
                return "row that doesn't match (password)", None
        if len(set(gi)) != len(gi) and len(gi) > len(wi):
            return "row repeated", None
        if q.type == "search":
            if len(cand) == 1 and not q.offset and len(got) != len(good):
                return "matching row not found (password)", None
            return None, "password"
        if not q.limit and not q.offset:
            if gi != wi:
                return "matching rows missing (password)", None
            if q.order and [sortkey(o, q.order) for o in got] != sorted((sortkey(o, q.order) for o in good)):
                return "order (password)", None
        return None, "password"
    off = q.offset
    lim = q.limit or None
    if q.type == "search":
        lim = 1
    return slice_check(rows, q.order if sel == "plain" else [], got, off, lim,
                       loose=sel == "distinct" and bool(q.order)), sel


def slice_check(rows, order, got, off, lim, loose=False):
    want = max(0, len(rows) - off)
    if lim is not None:
        want = min(want, lim)
    wi = {}
    for o in rows:
        wi[ident(o)] = wi.get(ident(o), 0) + 1
    for o in got:
        k = ident(o)
        if wi.get(k, 0) == 0:
            return "unexpected row"
        wi[k] -= 1
    if len(got) != want:
        return "%s rows" % ("too few" if len(got) < want else "too many")
    if order:
        ks = sorted(sortkey(o, order) for o in rows)[off:]
        if lim is not None:
            ks = ks[:lim]
        if [sortkey(o, order) for o in got] != ks:
            return "order of rows"
    return None


def judge_groups(m, s, q, gs, full, got):
    """One row per group.  `full` has the candidates of each group before the
    terms apply: if the terms hide some of several equal ones, whether the
    group has a row is open."""
    member = {}
    for k, v in gs.items():
        for o in v:
            member[ident(o)] = k
    ns = range(sum(len(v) == len(full[k]) for k, v in gs.items()), len(gs) + 1)
    if q.type == "count":
        return (None, "group") if got in ns else ("count of groups is %r, not %d" % (got, len(gs)), None)
    lim = 1 if q.type == "search" else (q.limit or None)
    seen = set()
    for o in got:
        k = member.get(ident(o))
        if k is None:
            return "row that isn't the %s of its group" % q.group[1], None
        if k in seen:
            return "several rows for one group", None
        seen.add(k)
    for n in ns:
        want = max(0, n - q.offset)
        if lim is not None:
            want = min(want, lim)
        if len(got) == want:
            break
    else:
        return "number of groups", None
    if q.order and [sortkey(o, q.order) for o in got] != sorted(sortkey(o, q.order) for o in got):
        return "order of grouped rows", None
    return None, "group"
