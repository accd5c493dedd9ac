"""Reference model of what a role may do: reachable operations and data."""
from cfg import *

STY = {"search": "get", "list": "list", "iterate": "iterate", "count": "count"}


def holds(c, role, granted):
    """May `role` use what is granted to `granted`?"""
    return any(a in granted for a in c.ancestors(role))


def query_name(s, q):
    n = "db_%s_%s" % (s.name, STY[q.type])
    if q.name:
        return n + "_" + q.name
    if q.terms:
        n += "_by" + "".join("_%s_%s" % ("_".join(p), o) for p, o in q.terms)
    return n


MOD = {"concat": "cat", "dec": "dec", "inc": "inc", "set": "set", "strset": "strset"}


def update_name(s, u, kind):
    n = "db_%s_%s" % (s.name, kind)
    if u.name:
        return n + "_" + u.name
    if kind == "update":
        n += "".join("_%s_%s" % (f, MOD[m]) for f, m in u.mods)
    if u.cons:
        n += "_by" + "".join("_%s_%s" % (f, o) for f, o in u.cons)
    return n


def noexport_struct(c, s, role):
    """Is the structure as a whole withheld from the role?"""
    return any(t == "noexport" and n is None and holds(c, role, set(rs)) for rs, ops in s.roles for t, n in ops)


def audit(c, role):
    """(operations, reachable): operations is a list of (kind, struct, object);
    reachable maps a structure to [(struct, query, path, exported)]."""
    ops, reach = [], {}
    for s in c.structs:
        r = c.op_roles(s)
        ne = None
        if s.insert and holds(c, role, r[("insert", 0)]):
            ops.append(("insert", s, None))
        for i, u in enumerate(s.updates):
            if holds(c, role, r[("update", i)]):
                ops.append(("update", s, u))
        for i, u in enumerate(s.deletes):
            if holds(c, role, r[("delete", i)]):
                ops.append(("delete", s, u))
        for i, q in enumerate(s.searches):
            if not holds(c, role, r[("query", i)]):
                continue
            ops.append((q.type, s, q))
            t = s
            for p in (q.distinct or ()):
                t = c.target(t, t.f(p))

            def rec(t, path, exp):
                exp = exp and not noexport_struct(c, t, role)
                reach.setdefault(t.name, []).append((s, q, ".".join(path), exp))
                per = c.noexport_roles(t)
                for f in t.fields:
                    if f.type == "struct":
                        e = exp and not f.noexport and not holds(c, role, per[f.name])
                        rec(c.target(t, f), path + (f.name,), e)
            rec(t, (), True)
    return ops, reach


def lines(P, role, verbose):
    """Expected lines of ort-audit: (kind, component, file:line)."""
    c = P.c
    ops, reach = audit(c, role)
    out = []
    for k, s, o in ops:
        if k == "insert":
            out.append((k, s.name, P.pos[("insert", s.name)]))
        elif k in ("update", "delete"):
            out.append((k, "%s:%s" % (s.name, o.name or "-"), P.pos[("update", s.name, id(o))]))
        else:
            out.append((k, "%s:%s" % (s.name, o.name or "-"), P.pos[("search", s.name, id(o))]))
    for t, l in reach.items():
        if not verbose:
            out.append(("readwrite" if any(x[3] for x in l) else "read", t, P.pos[("strct", t)]))
        else:
            for s, q, path, exp in l:
                out.append(("readwrite" if exp else "read",
                            "%s:%s:%s:%s" % (t, q.type, q.name or "-", path or "-"),
                            P.pos[("search", s.name, id(q))]))
    return out


def text(d):
    """A documentation string as it's meant to be read."""
    return None if d is None else norm_doc(d).replace('\\"', '"')


def json_model(c, role):
    ops, reach = audit(c, role)
    out = {"role": role, "doc": None, "access": {}, "functions": {}, "fields": {}}
    for r, _ in c.all_roles():
        if r.name == role:
            out["doc"] = text(r.doc)
    for s in c.structs:
        a = {"insert": None, "update": [], "delete": [], "count": [], "get": [], "list": [], "iterate": []}
        if s.name in reach:
            l = reach[s.name]
            a["exportable"] = any(x[3] for x in l)
            a["data"] = [f.name for f in s.fields]
            a["accessfrom"] = [{"function": query_name(t, q), "exporting": e, "path": p} for t, q, p, e in l]
            per = c.noexport_roles(s)
            for f in s.fields:
                out["fields"]["%s.%s" % (s.name, f.name)] = {
                    "export": f.type != "password" and not f.noexport and not holds(c, role, per[f.name]), "doc": text(f.doc)}
        out["access"][s.name] = a
    for k, s, o in ops:
        a = out["access"][s.name]
        if k == "insert":
            n = a["insert"] = "db_%s_insert" % s.name
            ty, d = "insert", None
        elif k in ("update", "delete"):
            n, ty, d = update_name(s, o, k), k, o.doc
            a[k].append(n)
        else:
            n, ty, d = query_name(s, o), STY[k], o.doc
            a[ty].append(n)
        out["functions"].setdefault(n, []).append({"type": ty, "doc": text(d)})
    return out
