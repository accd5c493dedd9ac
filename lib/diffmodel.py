"""Reference model of ort-diff(1): the lines expected for two configurations.
Every object is identified by the file and line on which its statement starts
(the printer below puts one statement on each line)."""
from cfg import *


class Printed:
    """A configuration printed one statement to a line, over several files,
    with the position of every object."""

    def __init__(self, c, st, files):
        self.c, self.pos = c, {}
        self.text = [""] * len(files)
        self.files, self.st = files, st
        ln = [1] * len(files)

        def emit(i, toks, key=None):
            for _ in range(st.rng.choice((0, 0, 0, 1, 2)) if st.space else 0):
                self.text[i] += st.rng.choice(("\n", "# note\n", "   \n"))
                ln[i] += 1
            if key is not None:
                self.pos[key] = "%s:%d" % (files[i], ln[i])
            plain = Style(st.rng, case=st.case)
            t = render([x for x in toks if x != "\n"], plain)
            assert t.count("\n") == 1, t
            self.text[i] += t
            ln[i] += 1
        objs = []
        if c.roles is not None:
            objs.append(("roles", None))
        objs += [("enum", e) for e in c.enums] + [("bits", b) for b in c.bitfs] + [("struct", s) for s in c.structs]
        if st.order:
            st.rng.shuffle(objs)
        for kind, o in objs:
            i = st.rng.randrange(len(files))
            if kind == "roles":
                emit(i, ["roles", "{"], ("roles",))

                def rec(rs):
                    rs = list(rs)
                    if st.order:
                        st.rng.shuffle(rs)
                    for x in rs:
                        t = toks_role(Role(x.name, x.doc), st)
                        if x.subs:
                            emit(i, t[:-1] + ["{"], ("role", x.name))
                            rec(x.subs)
                            emit(i, ["}", ";"])
                        else:
                            emit(i, t, ("role", x.name))
                rec(c.roles)
                emit(i, ["}", ";"])
            elif kind in ("enum", "bits"):
                k2 = "enm" if kind == "enum" else "bitf"
                emit(i, [kind, o.name, "{"], (k2, o.name))
                for x in o.items:
                    emit(i, toks_item(x, st, False), ("eitem" if kind == "enum" else "bitidx", o.name, x.name))
                if o.isnull:
                    emit(i, ["isnull"] + toks_labels(o.isnull, st) + [";"])
                if kind == "bits" and o.isunset:
                    emit(i, ["isunset"] + toks_labels(o.isunset, st) + [";"])
                if o.doc is not None:
                    emit(i, ["comment", Str(o.doc), ";"])
                emit(i, ["}", ";"])
            else:
                s = o
                emit(i, ["struct", s.name, "{"], ("strct", s.name))
                stm = []
                for f in s.fields:
                    emit(i, toks_field(f, st), ("field", s.name, f.name))
                stm += [(toks_search(q, st), ("search", s.name, id(q))) for q in s.searches]
                stm += [(toks_update("update", u, st), ("update", s.name, id(u))) for u in s.updates]
                stm += [(toks_update("delete", u, st), ("update", s.name, id(u))) for u in s.deletes]
                if s.insert:
                    stm.append((["insert", ";"], ("insert", s.name)))
                for u in s.uniques:
                    t = ["unique"]
                    for n, x in enumerate(u):
                        t += ([","] if n else []) + [x]
                    stm.append((t + [";"], ("unique", s.name, frozenset(u))))
                if s.doc is not None:
                    stm.append((["comment", Str(s.doc), ";"], None))
                if st.order:
                    st.rng.shuffle(stm)
                for t, k in stm:
                    emit(i, t, k)
                for rs, ops in s.roles:
                    t = ["roles"]
                    for n, x in enumerate(rs):
                        t += ([","] if n else []) + [x]
                    t.append("{")
                    for ty, n in ops:
                        t += [ty] + ([n] if n is not None else []) + [";"]
                    emit(i, t + ["}", ";"])
                emit(i, ["}", ";"])


def expected(A, B):
    """Set of lines (without columns) expected from ort-diff A -> B, by
    section, and whether the two differ."""
    a, b = A.c, B.c
    out = []

    def one(sign, kind, key, P):
        out.append("%s %s %s" % (sign, kind, P.pos[key]))

    def pair(kind, ka, kb, mods):
        x = "%s -> %s" % (A.pos[ka], B.pos[kb])
        if mods:
            out.append("@@ %s %s @@" % (kind, x))
            for m in mods:
                out.append("! %s %s %s" % (kind, m, x))
        else:
            out.append("  %s %s" % (kind, x))

    def section(title, fn):
        nonlocal out
        keep, out = out, []
        changed = fn()
        body, out = out, keep
        if changed:
            out.append("@@ %s @@" % title)
            out += body
        return changed

    def roles():
        if a.roles is None and b.roles is None:
            return False
        if a.roles is None:
            one("+", "roles", ("roles",), B)
            return True
        if b.roles is None:
            one("-", "roles", ("roles",), A)
            return True
        ra, rb = {x.name: x for x, _ in a.all_roles()}, {x.name: x for x, _ in b.all_roles()}
        pa, pb = a.role_parents(), b.role_parents()
        ch = False
        keep = list(out)
        for n in ra:
            if n not in rb:
                one("-", "role", ("role", n), A)
                ch = True
            else:
                m = []
                if pa[n] != pb[n]:
                    m.append("parent")
                if ra[n].doc != rb[n].doc:
                    m.append("comment")
                if {x.name for x in ra[n].subs} != {x.name for x in rb[n].subs}:
                    m.append("children")
                pair("role", ("role", n), ("role", n), m)
                ch |= bool(m)
        for n in rb:
            if n not in ra:
                one("+", "role", ("role", n), B)
                ch = True
        if ch:
            out.insert(len(keep), "@@ roles %s -> %s @@" % (A.pos[("roles",)], B.pos[("roles",)]))
        return ch

    def items(kind, parent, la, lb, va, vb):
        ch = False
        da, db = {i.name: i for i in la}, {i.name: i for i in lb}
        for n in db:
            if n not in da:
                one("+", kind, (kind, parent, n), B)
                ch = True
                continue
            m = []
            if va[n] != vb[n]:
                m.append("value")
            if da[n].labels != db[n].labels:
                m.append("labels")
            if da[n].doc != db[n].doc:
                m.append("comment")
            pair(kind, (kind, parent, n), (kind, parent, n), m)
            ch |= bool(m)
        for n in da:
            if n not in db:
                one("-", kind, (kind, parent, n), A)
                ch = True
        return ch

    def typed(kind, ikind, la, lb):
        def fn():
            nonlocal out
            ch = False
            da, db = {i.name: i for i in la}, {i.name: i for i in lb}
            for n in db:
                if n not in da:
                    one("+", kind, (kind, n), B)
                    ch = True
                    continue
                x, y = da[n], db[n]
                keep, out = out, []
                if kind == "enm":
                    va, vb = x.values(), y.values()
                else:
                    va, vb = {i.name: i.value for i in x.items}, {i.name: i.value for i in y.items}
                mod = items(ikind, n, x.items, y.items, va, vb)
                p = "%s -> %s" % (A.pos[(kind, n)], B.pos[(kind, n)])
                if x.doc != y.doc:
                    out.append("! %s comment %s" % (kind, p))
                    mod = True
                if x.isnull != y.isnull or getattr(x, "isunset", 0) != getattr(y, "isunset", 0):
                    out.append("! %s labels %s" % (kind, p))
                    mod = True
                body, out = out, keep
                if mod:
                    out.append("@@ %s %s @@" % (kind, p))
                    out += body
                    ch = True
                else:
                    out.append("  %s %s" % (kind, p))
            for n in da:
                if n not in db:
                    one("-", kind, (kind, n), A)
                    ch = True
            return ch
        return fn

    def struct_(x, y):
        ch = False
        n = x.name
        ora, orb = a.op_roles(x), b.op_roles(y)

        # queries
        def qinfo(s, i, orr):
            q = s.searches[i]
            return {"params": q.terms, "order": q.order, "aggr": q.group and q.group[1:], "group": q.group and q.group[0],
                    "distinct": q.distinct, "comment": q.doc, "limit": q.limit, "offset": q.offset,
                    "rolemap": orr[("query", i)]}

        def uinfo(s, kind, i, orr):
            u = (s.updates if kind == "update" else s.deletes)[i]
            mods = u.mods
            al = kind == "update" and not mods
            if al:
                mods = [(f.name, "set") for f in s.fields if not f.rowid and f.type != "struct"]
            return {"params": (mods, u.cons), "comment": u.doc, "flags": al, "rolemap": orr[(kind, i)]}

        def ops(kind, A_, B_):
            """A_, B_: list of (object, ident or None, info)"""
            nonlocal ch
            na = {i: (o, f) for o, i, f in A_ if i is not None}
            nb = {i: (o, f) for o, i, f in B_ if i is not None}
            for i, (o, f) in na.items():
                if i not in nb:
                    one("-", kind, (kind, n, id(o)), A)
                    ch = True
                else:
                    o2, f2 = nb[i]
                    m = [k for k in f if f[k] != f2[k]]
                    pair(kind, (kind, n, id(o)), (kind, n, id(o2)), m)
                    ch |= bool(m)
            for i, (o, f) in nb.items():
                if i not in na:
                    one("+", kind, (kind, n, id(o)), B)
                    ch = True
            ua = [(o, f) for o, i, f in A_ if i is None]
            ub = [(o, f) for o, i, f in B_ if i is None]
            for o, f in ua:
                hit = [o2 for o2, f2 in ub if f == f2]
                if len(hit) > 1 or len([1 for o2, f2 in ua if f == f2]) > 1:
                    raise Ambiguous()
                if hit:
                    pair(kind, (kind, n, id(o)), (kind, n, id(hit[0])), [])
                else:
                    one("-", kind, (kind, n, id(o)), A)
                    ch = True
            for o, f in ub:
                if not any(f == f2 for _, f2 in ua):
                    one("+", kind, (kind, n, id(o)), B)
                    ch = True
        def qid(q):
            return (q.type, q.name) if q.name else None

        def tq(s, orr):
            return [(q, qid(q), dict(qinfo(s, i, orr), **({} if q.name else {"type": q.type})))
                    for i, q in enumerate(s.searches)]
        ops("search", tq(x, ora), tq(y, orb))
        for kind in ("update", "delete"):
            la, lb = (x.updates, y.updates) if kind == "update" else (x.deletes, y.deletes)
            ops("update", [(u, u.name, uinfo(x, kind, i, ora)) for i, u in enumerate(la)],
                [(u, u.name, uinfo(y, kind, i, orb)) for i, u in enumerate(lb)])
        if x.insert and y.insert:
            m = []
            if ora[("insert", 0)] != orb[("insert", 0)]:
                m.append("rolemap")
            if [f.name for f in x.fields] != [f.name for f in y.fields]:
                m.append("params")
            if m:
                pair("insert", ("insert", n), ("insert", n), m)
                ch = True
        elif x.insert:
            one("-", "insert", ("insert", n), A)
            ch = True
        elif y.insert:
            one("+", "insert", ("insert", n), B)
            ch = True
        # fields
        nea, neb = a.noexport_roles(x), b.noexport_roles(y)
        for f in y.fields:
            g = x.f(f.name)
            if g is None:
                one("+", "field", ("field", n, f.name), B)
                ch = True
                continue
            m = []
            if nea[f.name] != neb[f.name]:
                m.append("rolemap")
            if g.type != f.type:
                m.append("type")
            if (g.actdel, g.actup) != (f.actdel, f.actup):
                m.append("actions")
            if (g.rowid, g.null, g.unique and not g.rowid, g.noexport, g.default is None) != \
                    (f.rowid, f.null, f.unique and not f.rowid, f.noexport, f.default is None):
                m.append("flags")
            if g.type == f.type == "bits" and g.tname != f.tname:
                m.append("bitf")
            if g.type == f.type == "enum" and g.tname != f.tname:
                m.append("enum")
            if g.default is not None and f.default is not None and g.type == f.type:
                if canon_default(a, g) != canon_default(b, f) or g.type == "enum" and g.tname != f.tname:
                    m.append("def")
            ra = g.ref or (g.type == "struct" and (g.src, x.f(g.src).ref)) or None
            rb = f.ref or (f.type == "struct" and (f.src, y.f(f.src).ref)) or None
            if ra != rb:
                m.append("ref")
            la = sorted((o, float(v)) if g.type == "real" else (o, v) for o, v in g.limits)
            lb = sorted((o, float(v)) if f.type == "real" else (o, v) for o, v in f.limits)
            if la != lb or g.type != f.type and la:
                m.append("valids")
            if g.doc != f.doc:
                m.append("comment")
            pair("field", ("field", n, f.name), ("field", n, f.name), m)
            ch |= bool(m)
        for g in x.fields:
            if y.f(g.name) is None:
                one("-", "field", ("field", n, g.name), A)
                ch = True
        ua, ub = {frozenset(u) for u in x.uniques}, {frozenset(u) for u in y.uniques}
        for u in ub - ua:
            one("+", "unique", ("unique", n, u), B)
            ch = True
        for u in ua - ub:
            one("-", "unique", ("unique", n, u), A)
            ch = True
        if x.doc != y.doc:
            out.append("! strct comment %s -> %s" % (A.pos[("strct", n)], B.pos[("strct", n)]))
            ch = True
        return ch

    def structs():
        nonlocal out
        ch = False
        da, db = {s.name: s for s in a.structs}, {s.name: s for s in b.structs}
        for n in db:
            if n not in da:
                one("+", "strct", ("strct", n), B)
                ch = True
                continue
            keep, out = out, []
            mod = struct_(da[n], db[n])
            body, out = out, keep
            p = "%s -> %s" % (A.pos[("strct", n)], B.pos[("strct", n)])
            if mod:
                out.append("@@ strct %s @@" % p)
                out += body
                ch = True
            else:
                out.append("  strct %s" % p)
        for n in da:
            if n not in db:
                one("-", "strct", ("strct", n), A)
                ch = True
        return ch

    ch = section("roles", roles)
    ch |= section("enumerations", typed("enm", "eitem", a.enums, b.enums))
    ch |= section("bitfields", typed("bitf", "bitidx", a.bitfs, b.bitfs))
    ch |= section("strcts", structs)
    return out, ch


class Ambiguous(Exception):
    """Indistinguishable unnamed operations: which pairs up is unspecified."""
