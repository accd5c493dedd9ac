#!/usr/bin/env python3
"""P07: migrations turn the old schema into the new one or are refused."""
import os, re, sqlite3, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, edit, sqlmodel, big
from common import scale


def items(o):
    return o.values() if isinstance(o, cfg.Enum) else {i.name: i.value for i in o.items}


def verdict(a, b):
    """(hard, soft): reasons for refusing always, and only without -d."""
    hard, soft = [], []
    for kind, la, lb in (("enum", a.enums, b.enums), ("bits", a.bitfs, b.bitfs)):
        nb = {x.name: x for x in lb}
        for x in la:
            y = nb.get(x.name)
            if y is None:
                soft.append(kind + " dropped")
                continue
            ix, iy = items(x), items(y)
            for n in ix:
                if n not in iy:
                    soft.append(kind + " item dropped")
                elif ix[n] != iy[n]:
                    hard.append(kind + " item value")
    for s in a.structs:
        t = b.s(s.name)
        if t is None:
            soft.append("struct dropped")
            continue
        for f in s.fields:
            g = t.f(f.name)
            if g is None:
                if f.type != "struct":
                    soft.append("field dropped")
                continue
            if f.type != g.type:
                hard.append("type")
                continue
            if f.type == "struct":
                continue
            if f.tname != g.tname:
                hard.append("enum/bits type")
            if (f.rowid, f.null) != (g.rowid, g.null):
                hard.append("rowid/null")
            if f.ref != g.ref:
                hard.append("reference")
            if (f.actdel, f.actup) != (g.actdel, g.actup):
                hard.append("actions")
        for g in t.fields:
            if s.f(g.name) is None and g.rowid:
                hard.append("rowid added")
    return hard, soft


def sqldefault(c, f):
    d = f.default
    if d is None:
        return None
    if f.type == "date":
        return cfg.date_epoch(d) if isinstance(d, tuple) else d
    if f.type == "enum":
        return c.e(f.tname).values()[d]
    if f.type == "real":
        return float(d)
    if f.type in ("text", "email"):
        return re.sub("\r+\n", "\n", d).replace('\\"', '"')
    return d


def same(x, y):
    return x == y and type(x) == type(y)


def main(chk):
    b = common.build()
    d = common.scratch("p07")
    tool, stool = os.path.join(b, "ort-sqldiff"), os.path.join(b, "ort-sql")
    opts = gen.Opts(structs=(1, 6), fields=(1, 7), uniques=.5, text="plain", docs=.1, queries=(0, 2), roles=.2,
                    defaults=.6)

    def migrate(A, B, fa, fb, i, r, destruct, what):
        fs = dict(fa)
        fs.update(fb)
        for n, t in fs.items():
            work.write(d, n, t)
        args = [tool] + (["-d"] if destruct else [])
        stdin = None
        fa, fb = list(fa), list(fb)
        if len(fa) == len(fb) == 1 and r.random() < .4:
            args += fa + fb
        elif r.random() < .15 and len(fb) == 1:
            stdin = fs[fb[0]]
            args += fa + ["-f"]
        elif r.random() < .15 and len(fa) == 1:
            stdin = fs[fa[0]]
            args += ["-f"] + fb
        else:
            args += fa + ["-f"] + fb
        x = common.run(args, cwd=d, input=stdin)
        for n in fs:
            os.unlink(os.path.join(d, n))
        fs["out.sql"] = x.out
        det = "edits: %s\n%s\nexit %s\n%s\n%s" % (what, args, x.rc, x.out, x.err)
        if x.timeout:
            chk.unsure("timeout")
            return None
        if x.san:
            chk.violation("crash: " + x.san, x.err[-3000:], fs)
            return None
        hard, soft = verdict(A, B)
        why = sorted(set(hard + ([] if destruct else soft)))
        if (x.rc != 0) != bool(why):
            chk.violation("%s although %s" % ("refused" if x.rc else "accepted", ", ".join(why) or "compatible"),
                          det, fs)
            return None
        if x.rc:
            for w in why:
                chk.count("refused: " + w)
            if x.out:
                chk.violation("output in spite of refusal", det, fs)
            if not x.err.strip():
                chk.violation("refused without a message", det, fs)
            return ("refused", tuple(why))
        return apply(A, B, x.out, fs, det, r, destruct)

    def apply(A, B, sql, fs, det, r, destruct):
        sa = common.run([stool], input=cfg.to_text(A))
        db = sqlite3.connect(":memory:", isolation_level=None)
        try:
            e = sqlmodel.sqlscript(db, sa.out)
            if e:
                chk.count("old schema not loadable")
                return None
            newf = [(s, t.f(g.name)) for s in A.structs for t in [B.s(s.name)] if t
                    for g in t.fields if g.type != "struct" and s.f(g.name) is None]
            # SQLite's own limits, with what the manual says of them.
            for s, f in newf:
                if not f.null and f.default is None:
                    chk.count("not null column without default")
                    if f.ref:
                        return None
                    lit = {"REAL": "1.5", "TEXT": "'x'", "BLOB": "x'00'"}.get(sqlmodel.SQLTYPE[f.type], "3")
                    old = "ALTER TABLE %s ADD COLUMN %s %s NOT NULL;" % (s.name, f.name, sqlmodel.SQLTYPE[f.type])
                    if old not in sql:
                        chk.violation("column not added", det, fs)
                        return None
                    sql = sql.replace(old, old[:-1] + " DEFAULT %s;" % lit)
            refdef = [f for s, f in newf if f.ref and f.default is not None]
            newu = any(f.unique for _, f in newf) or any(
                set(u) & {f.name for t, f in newf if t.name == s.name} for s in B.structs for u in s.uniques)
            n = 1 if newu or r.random() < .3 else 3
            names = {x.name for s in A.structs + B.structs for x in [s] + s.fields}
            gone = [s for s in A.structs if B.s(s.name) is None]
            if cyclic(gone) or any(f.ref and f.ref[0] in {s.name for s in gone}
                                   for s in A.structs if s not in gone for f in s.fields):
                n = 0           # columns and tables that SQLite doesn't let go while there are rows
                chk.count("without rows")
            rows = sqlmodel.populate(db, A, n, r)
            trans = r.random() < .5
            e = sqlmodel.sqlscript(db, ("BEGIN EXCLUSIVE TRANSACTION ;\n" + sql + "COMMIT TRANSACTION ;\n") if trans
                                   else sql)
            if e:
                if refdef and "REFERENCES" in e:
                    chk.violation("added reference with a default is refused by SQLite", e + "\n" + det, fs)
                else:
                    chk.violation("SQLite rejects the migration: " +
                                  " ".join(w for w in re.split(r'[":\n]', e)[0].split()[:6] if w not in names),
                                  e + "\n" + det, fs)
                return None
            want, (got, other) = sqlmodel.expected(B), sqlmodel.introspect(db)
            if other:
                chk.violation("unexpected object after migration", repr(other), fs)
            if destruct:
                # Dropped columns are documented to stay behind.
                for s in A.structs:
                    t = B.s(s.name)
                    if t is None:
                        continue
                    gone = [f for f in s.fields if f.type != "struct" and t.f(f.name) is None]
                    gn = {f.name for f in gone}
                    if gn:
                        chk.count("dropped columns noted", len(gn))
                    for f in gone:
                        if "-- ALTER TABLE %s DROP COLUMN %s;" % (s.name, f.name) not in sql:
                            chk.violation("dropped column not noted", det, fs)
                    g = got.get(s.name)
                    if g:
                        g["columns"] = [c for c in g["columns"] if c[0] not in gn]
                        g["fkeys"] = [k for k in g["fkeys"] if k[0] not in gn]
            for k, t in sqlmodel.compare(want, got, ordered=False):
                chk.violation("migrated schema: " + k, t + "\n" + det, fs)
            # Old rows are still there, with defaults in their new columns.
            for s in A.structs:
                t = B.s(s.name)
                if t is None:
                    continue
                old = rows[s.name]
                if not old:
                    continue
                names = list(old[0])
                if not names:
                    continue
                now = db.execute("SELECT %s FROM %s ORDER BY _rowid_" % (",".join(names), s.name)).fetchall()
                if sorted(map(repr, now)) != sorted(repr(tuple(o.values())) for o in old):
                    chk.violation("rows changed by migration", "%s: %r != %r" % (s.name, old, now) + det, fs)
                chk.count("rows carried over", len(now))
                for q, f in newf:
                    if q.name == s.name:
                        v = sqldefault(B, f)
                        if v is None and not f.null:
                            continue
                        for (x,) in db.execute("SELECT %s FROM %s" % (f.name, s.name)):
                            chk.count("defaults read back")
                            if not same(x, v):
                                chk.violation("default value of an added %s column" % f.type,
                                              "%r instead of %r\n" % (x, v) + det, fs)
            bad = db.execute("PRAGMA foreign_key_check").fetchall() if not destruct else []
            if bad and not refdef and not any(f.ref for _, f in newf):
                chk.violation("migration breaks references", repr(bad) + det, fs)
            if sql and "PRAGMA foreign_keys=ON;" not in sql:
                chk.violation("no foreign key prologue", det, fs)
            if not sql:
                chk.count("nothing to migrate")
            return ("migrated", len(sql.splitlines()))
        finally:
            db.close()

    def pair(i, A, B, r, what):
        st = cfg.Style(r, case=r.random() < .5, order=r.random() < .5)
        fa = dict(zip(["o%s-%d.ort" % (i, k) for k in range(2)], cfg.to_files(A, st, r.choice((1, 1, 2)))))
        fb = dict(zip(["n%s-%d.ort" % (i, k) for k in range(2)], cfg.to_files(B, st, r.choice((1, 1, 2)))))
        for t in (fa, fb):
            x = common.run([stool] , input="\n".join(t.values()))
            if x.rc:
                return chk.count("edited configuration not valid")
        for destruct in (False, True):
            o = migrate(A, B, fa, fb, i, r, destruct, what)
            if o:
                chk.count(o[0] + (" -d" if destruct else ""))
                chk.ev((i, destruct, o), sample={"edits": what, "outcome": o})

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        a = big.config(r, i, 300)[1] if i < 21 else gen.gen_config(r.randrange(10 ** 9), opts)
        mode = r.random()
        if mode < .55:
            c, done = sqledit(r, a, r.choice((1, 1, 2, 4)))
        else:
            c, done = edit.edited(r, a, r.choice((0, 1, 2, 3, 5)))
        try:
            cfg.to_text(c)
        except (AttributeError, KeyError, TypeError):
            return
        pair("g%d" % i, a, c, r, ", ".join(done) or "same")
        if r.random() < .5:
            pair("r%d" % i, c, a, r, "reverse of " + ", ".join(done))
    common.pmap(one, range(scale(1500, 25000)))

    # The finding listed in KNOWN_FINDINGS, always exercised.
    a = cfg.Config(structs=[cfg.Struct("zapa", [cfg.Field("zid", rowid=True)]), cfg.Struct("zapo", [cfg.Field("zu")])])
    c = a.clone()
    c.structs[1].fields.append(cfg.Field("zref", ref=("zapa", "zid"), default=1))
    pair("k", a, c, chk.sub("k"), "reference with default added")
    chk.rule = ("distinct (pair, option) cases that were refused for a documented reason, or whose script SQLite ran on a "
                "populated database leaving the new schema, the old rows, and the configured defaults")
    chk.assumptions = ["NOT NULL columns without default are completed by hand, as ort-sqldiff(1) says",
                       "SQLite %s" % sqlite3.sqlite_version]


def cyclic(ss):
    """Do any of these tables refer to one another in a circle?"""
    to = {s.name: {f.ref[0] for f in s.fields if f.ref and f.type != "struct"} - {s.name} for s in ss}
    while True:
        free = [k for k in to if not any(k in v for v in to.values())]
        if not free:
            return bool(to)
        for k in free:
            del to[k]


STR = ["plain", "it's", "'", "''", '\\"q\\"', "a;b", "-- c", "%s %d", "ünï ☃", "two\nlines", "", "back\\slash", "x'; DROP"]


ACTS = ("none", "restrict", "nullify", "cascade", "default")


def sqledit(r, c, n):
    """Edits that should migrate."""
    c = c.clone()
    g = gen.Gen(r, gen.Opts(text="plain", defaults=1))
    done = []
    for _ in range(n):
        s = r.choice(c.structs)
        k = r.randrange(11)
        if k < 4:
            f = g.field(c, s, gen.Names(r))
            f.name = edit.nm(r)
            if f.rowid or (f.type == "struct"):
                continue
            if f.type in ("text", "email") and r.random() < .8:
                f.default = r.choice(STR)
            if f.ref and f.default is not None:
                f.default = None
            if f.default is None and r.random() < .8:
                f.null = True
            s.fields.insert(r.randint(0, len(s.fields)), f)
            done.append("field %s added" % f.type)
        elif k == 4:
            real = [f for f in s.fields if f.type != "struct"]
            if len(real) > 1:
                s.uniques.append(tuple(f.name for f in r.sample(real, r.randint(2, min(3, len(real))))))
                done.append("unique added")
        elif k == 5:
            if s.uniques:
                s.uniques.pop(r.randrange(len(s.uniques)))
                done.append("unique removed")
        elif k == 6:
            f = r.choice(s.fields)
            if f.type != "struct" and not f.rowid:
                f.unique = not f.unique
                done.append("field unique")
        elif k == 7:
            t = cfg.Struct(edit.nm(r), [cfg.Field(edit.nm(r), rowid=True), cfg.Field(edit.nm(r), "text", unique=True)])
            tg = [(p.name, x.name) for p in c.structs for x in p.fields if (x.rowid or x.unique) and x.type == "int"]
            if tg:
                t.fields.append(cfg.Field(edit.nm(r), ref=r.choice(tg), null=True, actdel=r.choice(ACTS), actup=r.choice(ACTS)))
            c.structs.insert(r.randint(0, len(c.structs)), t)
            done.append("struct added")
        elif k > 8:
            tg = [(p, x) for p in c.structs for x in p.fields if (x.rowid or x.unique) and x.type != "struct" and not x.null]
            if tg:
                p, x = r.choice(tg)
                f = cfg.Field(edit.nm(r), x.type, ref=(p.name, x.name), tname=x.tname, null=True, actdel=r.choice(ACTS), actup=r.choice(ACTS), unique=r.random() < .2)
                s.fields.insert(r.randint(0, len(s.fields)), f)
                done.append("reference added")
        elif k == 8 and len(c.structs) > 1:
            # with everything that depends on it
            gone = {s.name}
            while True:
                more = {t.name for t in c.structs if t.name not in gone and
                        any(f.ref and f.ref[0] in gone for f in t.fields)}
                if not more:
                    break
                gone |= more
            if len(gone) < len(c.structs):
                c.structs = [t for t in c.structs if t.name not in gone]
                done.append("%d structs removed" % len(gone))
    return c, done


if __name__ == "__main__":
    sys.exit(common.main("P07", main))
