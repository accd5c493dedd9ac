#!/usr/bin/env python3
"""P06: the schema is valid SQL and means exactly what the configuration says."""
import os, re, sqlite3, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, sqlmodel, refparse, big
from common import scale


def comments(text):
    """All words within SQL comments."""
    return [w for l in text.splitlines() if l.strip().startswith("--") for w in l.strip()[2:].split()]


def main(chk):
    b = common.build()
    tool = os.path.join(b, "ort-sql")

    def judge(c, text, tag, docs=True):
        x = common.run([tool], input=text)
        fs = {"in.ort": text, "out.sql": x.out}
        if x.timeout:
            return chk.unsure("timeout")
        if x.san:
            return chk.violation("crash: " + x.san, x.err[-3000:], fs)
        if x.rc:
            return chk.violation("no schema for a valid configuration", x.err, fs)
        if not x.out.startswith("PRAGMA foreign_keys=ON;\n"):
            chk.violation("no foreign key prologue", x.out[:200], fs)
        db = sqlite3.connect(":memory:", isolation_level=None)
        try:
            e = sqlmodel.sqlscript(db, x.out)
            if e:
                return chk.violation("SQLite rejects the schema: " + re.sub(r'"[^"]*"', "", e.split(":")[0]), e, fs)
            if db.execute("PRAGMA foreign_keys").fetchone()[0] != 1:
                chk.violation("foreign keys not enforced", "", fs)
            got, other = sqlmodel.introspect(db)
            want = sqlmodel.expected(c)
            for k, t in sqlmodel.compare(want, got):
                chk.violation("schema: " + k, t, fs)
            if other:
                chk.violation("unexpected object in schema", repr(other), fs)
            for t in got:
                if got[t]["default"]:
                    chk.violation("default in schema", repr(got[t]), fs)
            chk.count("tables", len(got))
            chk.count("columns", sum(len(t["columns"]) for t in got.values()))
            chk.count("foreign keys", sum(len(t["fkeys"]) for t in got.values()))
            chk.count("unique indices", sum(len(t["unique"]) for t in got.values()))
            if docs:
                com = comments(x.out)
                for s in c.structs:
                    for o in [s] + [f for f in s.fields if f.type != "struct"]:
                        if o.doc:
                            chk.count("comments")
                            w = o.doc.replace('\\"', '"').split()
                            ws = o.doc.split()
                            j = " " + " ".join(com) + " "
                            if " ".join(w) not in j and " ".join(ws) not in j:
                                chk.violation("comment lost", repr(o.doc), fs)
            # The constraints work: consistent rows are taken, others refused.
            r = chk.sub("rows", tag)
            sqlmodel.populate(db, c, 3, r)
            bad = db.execute("PRAGMA foreign_key_check").fetchall()
            if bad:
                chk.violation("consistent rows violate a foreign key", repr(bad), fs)
            chk.count("rows", 3 * len(c.structs))
            for s in c.structs:
                real = [f for f in s.fields if f.type != "struct"]
                for f in real:
                    vals = {g.name: sqlmodel.value(c, g.type, 77) for g in real}
                    if f.ref and f.ref[0] != s.name:
                        what = "dangling reference"
                    elif not f.null and not f.rowid and not f.ref:
                        vals[f.name] = None
                        what = "null in a not null column"
                    elif f.unique or f.rowid:
                        vals[f.name] = sqlmodel.value(c, f.type, 1)
                        what = "duplicate value in a unique column"
                        if f.null and db.execute("SELECT count(*) FROM %s WHERE %s=?" % (s.name, f.name),
                                                 [vals[f.name]]).fetchone()[0] == 0:
                            continue
                    else:
                        continue
                    try:
                        db.execute("INSERT INTO %s (%s) VALUES (%s)" % (
                            s.name, ",".join(vals), ",".join("?" * len(vals))), list(vals.values()))
                        chk.violation("accepts " + what, "%s.%s" % (s.name, f.name), fs)
                        db.execute("DELETE FROM %s WHERE %s IS ?" % (s.name, f.name), [vals[f.name]])
                    except sqlite3.IntegrityError:
                        chk.count("refused " + what)
            chk.ev((tag, c.structs and sorted(want)), sample={"tables": sorted(want)[:4]})
        finally:
            db.close()

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        many = r.random() < .1
        o = gen.Opts(structs=(1, 25) if many else (1, 6), fields=(1, 20) if many else (1, 7), uniques=.6, text="wild",
                     docs=.5, queries=(0, 2), roles=.2)
        c = big.config(r, i, 400)[1] if i < 14 else gen.gen_config(r.randrange(10 ** 9), o)
        judge(c, cfg.to_text(c, cfg.Style(r, order=r.random() < .5, case=r.random() < .5)), "gen%d" % i)
    common.pmap(one, range(scale(2500, 40000)))

    def regress(i):
        name, text = seeds[i]
        try:
            c = refparse.parse(text)
        except Exception:
            return
        judge(c, text, name, docs=False)
    seeds = []
    for n in sorted(os.listdir(os.path.join(common.REPO, "regress"))):
        if n.endswith(".ort"):
            try:
                seeds.append((n, open(os.path.join(common.REPO, "regress", n), encoding="utf-8").read()))
            except UnicodeDecodeError:
                pass
    common.pmap(regress, range(len(seeds)))

    # Names: whatever is accepted as one must work as one in SQL.
    words = set(gen.RESERVED)
    for w in KEYWORDS.split():
        words.add(w.lower())
    words |= {"rowid", "oid", "main", "temp", "sqlite", "c", "t0", "true1", "unique1", "nullx", "int8"}

    def word(w):
        for where in ("struct", "field"):
            t = "struct %s { field %s int; field id int rowid; unique %s, id; };" % (
                (w, "zz", "zz") if where == "struct" else ("zz", w, w))
            x = common.run([tool], input=t)
            if x.rc:
                chk.count("names refused")
                continue
            db = sqlite3.connect(":memory:")
            e = sqlmodel.sqlscript(db, x.out)
            db.close()
            chk.ev(("name", where, w))
            if e:
                chk.violation("name accepted that SQL refuses: %s" % w, e + "\n" + x.out, {"in.ort": t})
    common.pmap(word, sorted(words))
    chk.rule = "distinct configurations whose schema SQLite accepted and reported back, column by column, as the model says"
    chk.assumptions = ["SQLite %s is the database" % sqlite3.sqlite_version]


KEYWORDS = """ABORT ACTION ADD AFTER ALL ALTER ALWAYS ANALYZE AND AS ASC ATTACH AUTOINCREMENT BEFORE BEGIN BETWEEN BY
CASCADE CASE CAST CHECK COLLATE COLUMN COMMIT CONFLICT CONSTRAINT CREATE CROSS CURRENT CURRENT_DATE CURRENT_TIME
CURRENT_TIMESTAMP DATABASE DEFAULT DEFERRABLE DEFERRED DELETE DESC DETACH DISTINCT DO DROP EACH ELSE END ESCAPE
EXCEPT EXCLUDE EXCLUSIVE EXISTS EXPLAIN FAIL FILTER FIRST FOLLOWING FOR FOREIGN FROM FULL GENERATED GLOB GROUP
GROUPS HAVING IF IGNORE IMMEDIATE IN INDEX INDEXED INITIALLY INNER INSERT INSTEAD INTERSECT INTO IS ISNULL JOIN
KEY LAST LEFT LIKE LIMIT MATCH MATERIALIZED NATURAL NO NOT NOTHING NOTNULL NULL NULLS OF OFFSET ON OR ORDER OTHERS
OUTER OVER PARTITION PLAN PRAGMA PRECEDING PRIMARY QUERY RAISE RANGE RECURSIVE REFERENCES REGEXP REINDEX RELEASE
RENAME REPLACE RESTRICT RETURNING RIGHT ROLLBACK ROW ROWS SAVEPOINT SELECT SET TABLE TEMP TEMPORARY THEN TIES TO
TRANSACTION TRIGGER UNBOUNDED UNION UNIQUE UPDATE USING VACUUM VALUES VIEW VIRTUAL WHEN WHERE WINDOW WITH WITHIN
WITHOUT STORED STRICT TRUE FALSE"""

if __name__ == "__main__":
    sys.exit(common.main("P06", main))
