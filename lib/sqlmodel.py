"""Reference model of the SQL schema of a configuration, introspection of a
real SQLite database, and population of a database with consistent rows."""
import sqlite3
import cfg

SQLTYPE = {"bit": "INTEGER", "date": "INTEGER", "epoch": "INTEGER", "int": "INTEGER", "real": "REAL",
           "blob": "BLOB", "text": "TEXT", "password": "TEXT", "email": "TEXT", "enum": "INTEGER",
           "bits": "INTEGER"}
ACT = {"none": "NO ACTION", "restrict": "RESTRICT", "nullify": "SET NULL", "cascade": "CASCADE",
       "default": "SET DEFAULT"}


def column(f):
    return (SQLTYPE[f.type], not f.null and not f.rowid, f.rowid)


def fkey(f):
    return (f.name, f.ref[0], f.ref[1], ACT[f.actdel], ACT[f.actup])


def expected(c):
    out = {}
    for s in c.structs:
        real = [f for f in s.fields if f.type != "struct"]
        idx = {}
        for f in real:
            if f.unique and not f.rowid:
                idx["unique_%s__%s" % (s.name, f.name)] = frozenset([f.name])
        for u in s.uniques:
            idx["unique_%s__%s" % (s.name, "_".join(sorted(u)))] = frozenset(u)
        out[s.name] = {"columns": [(f.name,) + column(f) for f in real],
                       "fkeys": sorted(fkey(f) for f in real if f.ref), "unique": idx}
    return out


def introspect(db):
    """Schema as SQLite itself understands it, plus anything unexpected."""
    out, other = {}, []
    for ty, name, tbl, sql in db.execute("SELECT type,name,tbl_name,sql FROM sqlite_master"):
        if ty == "table":
            out[name] = None
        elif ty != "index":
            other.append((ty, name))
    for t in out:
        cols, dfl, fks, idx = [], {}, [], {}
        for cid, n, ty, nn, d, pk, hid in db.execute("PRAGMA table_xinfo(%s)" % t):
            cols.append((n, ty, bool(nn), bool(pk)))
            if d is not None:
                dfl[n] = d
        for r in db.execute("PRAGMA foreign_key_list(%s)" % t):
            fks.append((r[3], r[2], r[4], r[6], r[5]))
        for r in db.execute("PRAGMA index_list(%s)" % t).fetchall():
            if r[3] != "c" or not r[2] or r[4]:
                other.append(("index", r))
                continue
            idx[r[1]] = frozenset(x[2] for x in db.execute("PRAGMA index_info(%s)" % r[1]))
        out[t] = {"columns": cols, "fkeys": sorted(fks), "unique": idx, "default": dfl}
    return out, other


def compare(want, got, ordered=True):
    """List of (kind, text) discrepancies."""
    d = []
    for t in sorted(set(want) | set(got)):
        if t not in got:
            d.append(("table missing", t))
            continue
        if t not in want:
            d.append(("table unexpected", t))
            continue
        a, b = want[t], got[t]
        ca, cb = a["columns"], b["columns"]
        if {x[0] for x in ca} != {x[0] for x in cb}:
            d.append(("columns", "%s: %r != %r" % (t, ca, cb)))
        elif sorted(ca) != sorted(cb):
            for x, y in zip(sorted(ca), sorted(cb)):
                for k, n in ((1, "column type"), (2, "column not null"), (3, "column primary key")):
                    if x[k] != y[k]:
                        d.append((n, "%s: %r != %r" % (t, x, y)))
        elif ordered and ca != cb:
            d.append(("column order", "%s: %r != %r" % (t, ca, cb)))
        if a["fkeys"] != b["fkeys"]:
            d.append(("foreign keys", "%s: %r != %r" % (t, a["fkeys"], b["fkeys"])))
        if a["unique"] != b["unique"]:
            d.append(("unique indices", "%s: %r != %r" % (t, a["unique"], b["unique"])))
    return d


def value(c, ty, k, salt=""):
    if ty in ("int", "epoch", "date", "bit", "bits", "enum"):
        return k + 1
    if ty == "real":
        return k + .5
    if ty == "blob":
        return b"\x00\xff%d" % k
    if ty == "email":
        return "u%d@x.org" % k
    return "t'\"%d" % k


def populate(db, c, n, r):
    """n rows in every table; row k of a table refers to row k of others."""
    refd = {x.ref for s in c.structs for x in s.fields if x.ref}
    db.execute("PRAGMA foreign_keys=OFF")
    rows = {}
    for s in c.structs:
        real = [f for f in s.fields if f.type != "struct"]
        rows[s.name] = []
        for k in range(n):
            vals = {}
            for f in real:
                if f.null and (s.name, f.name) not in refd and r.random() < .3:
                    vals[f.name] = None
                else:
                    vals[f.name] = value(c, f.type, k)
            db.execute("INSERT INTO %s (%s) VALUES (%s)" % (
                s.name, ",".join(vals), ",".join("?" * len(vals))), list(vals.values()))
            rows[s.name].append(vals)
    db.execute("PRAGMA foreign_keys=ON")
    return rows


def sqlscript(db, text):
    """Execute and return None or the error."""
    try:
        db.executescript(text)
        return None
    except (sqlite3.Error, sqlite3.Warning) as e:
        return str(e)
