#!/usr/bin/env python3
"""P26: suspect declarations are warned about, and nothing else is."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work
from common import scale
from cfg import *

ANY = 1 << 20


class Due:
    """Bounds of the number of warnings due for one statement."""

    def __init__(self):
        self.lo, self.hi, self.why = 0, 0, []

    def add(self, lo, hi, why):
        self.lo += lo
        self.hi += hi
        self.why.append(why)


def nullop(c, s, terms, due):
    for p, op in terms:
        if op not in UNARY:
            continue
        t, loose = s, False
        for x in p[:-1]:
            f = t.f(x)
            loose = loose or t.f(f.src).null
            t = c.target(t, f)
        if not t.f(p[-1]).null:
            # whether fields of a structure that may be missing can be null isn't specified
            due.add(0 if loose else 1, 1, "null operator")


def query(c, s, q):
    due = Due()
    eq = [p for p, op in q.terms if op == "eq"]
    own = {p[0] for p in eq if len(p) == 1}
    sure = any(s.f(n).unique or s.f(n).rowid for n in own) or any(set(u) <= own for u in s.uniques)
    deep = any(len(p) > 1 and (c.path_field(s, p)[1].unique or c.path_field(s, p)[1].rowid) for p in eq)
    if q.type == "search":
        if q.limit != 1 and not sure:
            due.add(0 if deep and q.terms else 1, 1 if q.terms else 2, "single result, not unique")
    elif sure:
        due.add(1, 1, "many results, but unique")
    elif deep:
        due.add(0, 1, "many results, but unique in another structure")
    nullop(c, s, q.terms, due)
    return due


def overlaps(c, rs):
    """Does a set of roles have one and one of its descendants?"""
    return any(a in rs for x in rs for a in c.ancestors(x)[1:])


def rolemaps(s):
    """Roles of all assignments, as given and with what "all" adds to them."""
    given = {}
    for rs, ops in s.roles:
        for k in ops:
            given.setdefault(k, set()).update(rs)
    full = {}
    for (t, n), v in given.items():
        up = set()
        if t == "noexport" and n is not None:
            up = given.get(("noexport", None), set())
        elif t not in ("noexport", "all"):
            up = given.get(("all", None), set())
        full[(t, n)] = v | up
    return given, full


def layout(r, c, chk):
    """Text with each statement on its line, and what's due for each line."""
    st = Style()
    st.rng = r
    out, due = [], {}
    kinds = []

    def put(text, d=None):
        out.append(text)
        if d is not None and d.hi:
            due[len(out)] = d
            kinds.extend(d.why)
    for t in toks_config(Config(roles=c.roles), st) if c.roles is not None else ():
        put(render([x for x in t if x != "\n"], st).strip())
    for kw, l in (("enum", c.enums), ("bits", c.bitfs)):
        for e in l:
            body = render(toks_enum(e, st, kw), st).strip().split("\n")
            for b in body:
                d = Due()
                if kw == "bits" and re.search(r"(^|[{ ])isunset jslabel", b) and r.random() < .4:
                    b = re.sub(r"(^|[{ ])isunset jslabel", r"\1%s jslabel" % r.choice(("unset", "UNSET", "Unset")), b, count=1)
                    d.add(1, 1, "old keyword")
                put(b, d)
    for s in c.structs:
        put("struct %s {" % s.name)
        rest = []
        ro = c.op_roles(s)

        def role(d, k, i):
            if c.roles is not None and not ro[(k, i)]:
                d.add(1, 1, "no roles: " + k)
        for i, q in enumerate(s.searches):
            d = query(c, s, q)
            role(d, "query", i)
            t = toks_search(q, st)
            if r.random() < .1:
                # given twice: the latter holds
                if q.limit and r.random() < .6:
                    k = [x for x in range(len(t) - 1) if t[x] == "limit" and t[x + 1] == "%d" % q.limit][-1]
                    two = q.offset and r.random() < .5
                    t[k:k] = ["limit", "%d" % r.randint(1, 20)] + ([",", "%d" % r.randint(1, 20)] if two else [])
                    d.add(2 if two else 1, 2 if two else 1, "limit given twice")
                elif q.name:
                    k = [x for x in range(len(t) - 1) if t[x] == "name" and t[x + 1] == q.name][-1]
                    t[k:k] = ["name", "qq" + q.name]
                    d.add(1, 1, "name given twice")
            rest.append((t, d))
        for kind, l in (("update", s.updates), ("delete", s.deletes)):
            for i, u in enumerate(l):
                d = Due()
                nullop(c, s, [((f,), o) for f, o in u.cons], d)
                role(d, kind, i)
                rest.append((toks_update(kind, u, st), d))
        if s.insert:
            d = Due()
            role(d, "insert", 0)
            rest.append((["insert", ";"], d))
        for u in s.uniques:
            t = ["unique"]
            for k, x in enumerate(u):
                t += ([","] if k else []) + [x]
            rest.append((t + [";"], Due()))
        given, full = rolemaps(s)
        ls = []
        for rs, ops in s.roles:
            t = ["roles"]
            for k, x in enumerate(rs):
                t += ([","] if k else []) + [x]
            t.append("{")
            for ty, n in ops:
                t += [ty] + ([n] if n is not None else []) + [";"]
            d = Due()
            # the assignments that this one is a part of
            inv = set(ops)
            if ("all", None) in inv:
                inv |= {k for k in full if k[0] != "noexport"}
            if ("noexport", None) in inv:
                inv |= {k for k in full if k[0] == "noexport"}
            if any(overlaps(c, full[k]) for k in inv):
                alone = any(overlaps(c, set(rs)) for k in ops)
                d.add(1 if alone else 0, ANY, "overlapping roles")
            rest.append((t + ["}", ";"], d))
            ls.append(d)
        n = sum(overlaps(c, v) for v in full.values())
        r.shuffle(rest)
        lines = []
        for f in s.fields:
            d = Due()
            b = render(toks_field(f, st), st).strip()
            if f.type == "password" and f.noexport:
                d.add(1, 1, "noexport of password")
            if f.rowid and not f.unique and r.random() < .15:
                g = re.sub(r"\browid\b", r.choice(("rowid unique", "unique rowid")), b, count=1)
                if '"' not in b and g != b:
                    b = g
                    d.add(1, 1, "unique row identifier")
            lines.append((b, d))
        for t, d in rest:
            lines.insert(r.randint(0, len(lines)) if r.random() < .5 else len(lines), (render(t, st).strip(), d))
        for b, d in lines:
            assert "\n" not in b
            if r.random() < .1:
                put(r.choice(("", "# note", "  ")))
            put(r.choice(("", "", "  ", "\t")) + b, d)
        for d in ls:
            d.group = (n, [l for l, x in due.items() if any(x is y for y in ls)])
        put("};")
    for w in kinds:
        chk.count("due: " + w)
    return "\n".join(out) + "\n", due


def strip(c):
    """Texts with line breaks are of no interest here."""
    def rec(rs):
        for x in rs:
            x.doc = None
            rec(x.subs)
    rec(c.roles or [])
    for e in c.enums + c.bitfs:
        e.doc = None
        for i in e.items:
            i.doc = None
    for s in c.structs:
        s.doc = None
        for x in s.fields + s.searches + s.updates + s.deletes:
            x.doc = None


def provoke(r, c):
    """More of what's suspect."""
    for s in c.structs:
        real = [f.name for f in s.fields if f.type not in ("struct", "password", "blob")]
        if len(real) > 1 and r.random() < .5:
            for _ in range(r.choice((1, 2))):
                u = tuple(r.sample(real, r.choice((2, 2, min(3, len(real))))))
                if set(u) not in [set(x) for x in s.uniques]:
                    s.uniques.append(u)
        for q in s.searches:
            x = r.random()
            if q.name and s.uniques and r.random() < .3:
                u = list(r.choice(s.uniques))
                if all(n in real for n in u):
                    # by all fields of a clause, more, or not quite
                    r.shuffle(u)
                    y = r.random()
                    q.terms = [((n,), "eq") for n in u]
                    k = r.randrange(len(u))
                    if y < .15:
                        del q.terms[k]
                    elif y < .3:
                        q.terms[k] = ((u[k],), "ge")
                    elif y < .4:
                        q.terms.insert(k, ((u[k],), "ge"))
                    elif y < .6:
                        q.terms.insert(k, ((r.choice(real),), r.choice(("neq", "gt"))))
            if x < .3 and q.type == "search":
                q.limit = r.choice((0, 0, 1, 2, 10))
                q.offset = 0 if not q.limit else q.offset
            for k, (p, op) in enumerate(q.terms):
                if r.random() < .12:
                    n = r.choice(UNARY)
                    if (p, n) not in q.terms:
                        q.terms[k] = (p, n)
        for u in s.updates + s.deletes:
            for k, (f, op) in enumerate(u.cons):
                if r.random() < .12:
                    n = r.choice(UNARY)
                    if (f, n) not in u.cons:
                        u.cons[k] = (f, n)
        for f in s.fields:
            if f.type == "password" and r.random() < .3:
                f.noexport = True


def main(chk):
    b = common.build()
    root = common.scratch("p26")

    def case(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        try:
            one(r, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def one(r, d):
        c = gen.gen_config(r.randrange(1 << 30), gen.Opts(
            structs=(1, 5), text="plain", roles=r.choice((0, .9, 1)), rolegrants=r.choice((3, 6)), queries=(0, 8), uniques=.5, named=r.choice((.4, .75, 1))))
        strip(c)
        provoke(r, c)
        text, due = layout(r, c, chk)
        names, texts = ["in.ort"], [text]
        if r.random() < .3:
            names, texts = ["first.ort", "in.ort"], [r.choice(("", "# nothing\n", "\n\n\n")), text]
        fs = dict(zip(names, [work.enc(t) for t in texts]))
        for n, t in fs.items():
            work.write(d, n, t)
        for tool in ["ort"] + r.sample(["ort-sql", "ort-json", "ort-nodejs", "ort-rust", "ort-c-manpage"], 1):
            x = common.run([os.path.join(b, tool)] + names, cwd=d)
            if x.timeout:
                return chk.unsure("timeout")
            if x.san:
                return chk.violation("crash: " + x.san, x.err, fs)
            if x.rc:
                # not what's judged here: refusing the configuration
                return chk.count("refused")
            got = {}
            for l in x.err.split("\n"):
                g = re.match(r"(\w+\.ort):(\d+):(\d+): warning: (.*)$", l)
                if g is None:
                    if l:
                        return chk.violation("not a warning with a place", "%s: %r" % (tool, l), fs)
                    continue
                if g.group(1) != "in.ort":
                    return chk.violation("warning in another file", "%s: %r" % (tool, l), fs)
                got.setdefault(int(g.group(2)), []).append(l)
            chk.count("warnings", sum(map(len, got.values())))
            chk.count("runs")
            src = text.split("\n")
            for n, l in sorted(got.items()):
                e = due.get(n)
                if e is None:
                    return chk.violation("warning where none is due", "%s: %r\n%s" % (tool, l, src[n - 1]), fs)
                if len(l) > e.hi:
                    return chk.violation("more warnings than due: " + "+".join(sorted(set(e.why))), "%s: %r\n%s" % (tool, l, src[n - 1]), fs)
            for n, e in sorted(due.items()):
                k = len(got.get(n, ()))
                if k < e.lo:
                    return chk.violation("no warning: " + "+".join(sorted(set(e.why))), "%s: line %d: %d of %d: %r\n%s" % (tool, n, k, e.lo, got.get(n), src[n - 1]), fs)
                if "overlapping roles" in e.why:
                    want, where = e.group
                    have = sum(len(got.get(q, ())) for q in where)
                    if have < want:
                        return chk.violation("too few warnings of overlapping roles", "%s: %d of %d in lines %r" % (tool, have, want, where), fs)
        chk.count("lines with warnings due", len(due))
        chk.count("lines with none due", len(src) - len(due))
        chk.ev(tuple(sorted({(w, x.lo, min(x.hi, 9)) for x in due.values() for w in x.why})))

    common.pmap(case, range(scale(2500, 40000)))
    shutil.rmtree(root, ignore_errors=True)
    chk.rule = "distinct sets of reasons for warnings in one configuration"


if __name__ == "__main__":
    sys.exit(common.main("P26", main))
