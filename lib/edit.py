"""Random semantic edits of a configuration model (not necessarily valid)."""
import copy
from cfg import *
import gen as G


def nm(r):
    return "z" + "".join(r.choice(G.CONS) + r.choice(G.VOWS) for _ in range(3)) + str(r.randrange(100))


def near(r, t):
    """A text that's almost the same."""
    k = r.randrange(6)
    if k == 0:
        return t.swapcase()
    if k == 1:
        return t[:1].swapcase() + t[1:]
    if k == 2:
        return t + "x"
    if k == 3:
        return "x" + t
    if k == 4:
        return t.replace("e", "E", 1)
    return t[:-1] if t and t[-1] not in '\\"' else t + "."


def labels(r, d):
    if d and r.random() < .35:
        k = r.choice(sorted(d))
        d[k] = near(r, d[k])
        return
    if len(d) > 1 and r.random() < .2:
        a, b = r.sample(sorted(d), 2)
        d[a], d[b] = d[b], d[a]
        return
    k = r.choice(["", "en", "fr", "de", "x1"])
    if k in d and r.random() < .4:
        del d[k]
    else:
        d[k] = "label %d" % r.randrange(100)


def doc(r, o):
    if o.doc and r.random() < .35:
        o.doc = near(r, o.doc)
        return
    o.doc = None if o.doc is not None and r.random() < .4 else "note %d" % r.randrange(1000)


def pick(r, l):
    return r.choice(l) if l else None


def edit(r, c):
    """Apply one random edit; returns its name or None."""
    g = G.Gen(r, G.Opts(text="plain"))
    s = pick(r, c.structs)
    k = r.randrange(43)
    if k == 0:
        o = pick(r, c.enums + c.bitfs)
        if o:
            doc(r, o)
            return "enum/bits comment"
    elif k == 1:
        o = pick(r, c.enums + c.bitfs)
        if o:
            labels(r, o.isnull)
            return "enum/bits isnull"
    elif k == 2:
        o = pick(r, c.bitfs)
        if o:
            labels(r, o.isunset)
            return "bits isunset"
    elif k in (3, 4):
        o = pick(r, c.enums + c.bitfs)
        if o:
            i = r.choice(o.items)
            w = r.randrange(3)
            if w == 0:
                doc(r, i)
            elif w == 1:
                labels(r, i.labels)
            else:
                used = {x.value for x in o.items}
                i.value = r.choice([x for x in range(64) if x not in used])
            return "item " + ("comment", "labels", "value")[w]
    elif k == 5:
        o = pick(r, c.enums + c.bitfs)
        if o:
            used = {x.value for x in o.items}
            o.items.insert(r.randint(0, len(o.items)),
                           Item(nm(r), r.choice([x for x in range(64) if x not in used])))
            return "item added"
    elif k == 6:
        o = pick(r, c.enums + c.bitfs)
        if o and len(o.items) > 1:
            o.items.remove(r.choice(o.items))
            return "item removed"
    elif k == 7:
        c.enums.append(Enum(nm(r), [Item(nm(r), 1), Item(nm(r), 2)]))
        return "enum added"
    elif k == 8:
        c.bitfs.append(Bitf(nm(r), [Item(nm(r), 1)]))
        return "bits added"
    elif k == 9:
        l = r.choice((c.enums, c.bitfs))
        if l:
            l.remove(r.choice(l))
            return "enum/bits removed"
    elif k == 10:
        doc(r, s)
        return "struct comment"
    elif k in (11, 12):
        f = r.choice(s.fields)
        doc(r, f)
        return "field comment"
    elif k == 13:
        f = r.choice(s.fields)
        f.noexport = not f.noexport
        return "field noexport"
    elif k == 14:
        f = r.choice(s.fields)
        f.null = not f.null
        return "field null"
    elif k == 15:
        f = r.choice(s.fields)
        f.unique = not f.unique
        return "field unique"
    elif k == 16:
        f = r.choice(s.fields)
        if f.limits and r.random() < .4:
            f.limits.pop()
        elif f.type not in ("enum", "struct"):
            v = r.randrange(100)
            f.limits.append((r.choice(("ge", "le", "gt", "lt", "eq")), float(v) if f.type == "real" else v))
        else:
            return None
        return "field limits"
    elif k == 17:
        f = r.choice(s.fields)
        if f.default is not None and r.random() < .3:
            f.default = None
        elif f.type in ("int", "epoch", "bit", "bits"):
            f.default = r.randrange(1000)
        elif f.type == "real":
            f.default = f.default + r.choice((1, -1, .125)) if f.default and abs(f.default) < 1e5 \
                and r.random() < .4 else r.randrange(1000) / 8
        elif f.type in ("text", "email"):
            f.default = near(r, f.default) if f.default and r.random() < .5 else "def%d" % r.randrange(100)
        elif f.type == "date":
            f.default = (2000, 1, r.randint(1, 28))
        elif f.type == "enum" and c.e(f.tname):
            f.default = r.choice(c.e(f.tname).items).name
        else:
            return None
        return "field default"
    elif k == 18:
        f = r.choice(s.fields)
        if f.ref and f.type != "struct":
            if r.random() < .5:
                f.actdel = r.choice(("none", "restrict", "nullify", "cascade", "default"))
            else:
                f.actup = r.choice(("none", "restrict", "nullify", "cascade", "default"))
            return "field actions"
    elif k == 19:
        f = r.choice([x for x in s.fields if x.type != "struct" and not x.ref] or [None])
        if f and not f.rowid:
            f.type = r.choice([t for t in TYPES if t not in ("enum", "bits")])
            f.tname, f.default, f.limits = None, None, []
            return "field type"
    elif k == 20:
        f = r.choice([x for x in s.fields if x.type in ("enum", "bits")] or [None])
        if f:
            o = pick(r, c.enums if f.type == "enum" else c.bitfs)
            if o:
                f.tname, f.default = o.name, None
                return "field enum/bits"
    elif k == 21:
        f = r.choice([x for x in s.fields if x.ref and x.type != "struct"] or [None])
        if f:
            if r.random() < .5:
                f.ref, f.actdel, f.actup = None, "none", "none"
            else:
                ts = [(p.name, x.name) for p in c.structs for x in p.fields
                      if (x.rowid or x.unique) and x.type == f.type and p is not s]
                if not ts:
                    return None
                f.ref = r.choice(ts)
            return "field ref"
    elif k == 22:
        f = g.field(c, s, G.Names(r))
        f.name = nm(r)
        s.fields.insert(r.randint(0, len(s.fields)), f)
        return "field added"
    elif k == 23:
        if len(s.fields) > 1:
            s.fields.remove(r.choice(s.fields))
            return "field removed"
    elif k == 24:
        r.shuffle(s.fields)
        return "fields reordered"
    elif k in (25, 26, 27):
        q = pick(r, s.searches)
        if q:
            w = r.randrange(9)
            ps = g.paths(c, s)
            if w == 0:
                doc(r, q)
            elif w == 1 and ps:
                q.order = [(r.choice(ps)[0], r.choice(("asc", "desc")))] + (q.order if r.random() < .3 else [])
            elif w == 2:
                q.order = []
            elif w == 3:
                q.limit = r.choice((1, 2, 5))
            elif w == 4:
                q.offset = r.choice((0, 1, 3))
            elif w == 5:
                q.distinct = r.choice([None, ()] + g.spaths(c, s))
            elif w == 6 and ps:
                p, f = r.choice(ps)
                q.terms.append((p, g.op_for(f)))
            elif w == 7 and len(q.terms) > 1:
                if r.random() < .5:
                    q.terms.pop()
                else:
                    r.shuffle(q.terms)
            elif w == 8 and ps:
                q.group = None if q.group and r.random() < .5 else \
                    (r.choice(ps)[0], r.choice(("minrow", "maxrow")), r.choice(ps)[0])
            return "query part %d" % w
    elif k == 28:
        q = pick(r, s.searches)
        if q:
            if r.random() < .5:
                q.type = r.choice(("search", "list", "iterate", "count"))
            else:
                q.name = nm(r) if r.random() < .7 else None
            return "query identity"
    elif k == 29:
        ps = g.paths(c, s)
        if ps:
            p, f = r.choice(ps)
            s.searches.insert(r.randint(0, len(s.searches)),
                              Search(r.choice(("list", "count", "iterate")), [(p, g.op_for(f))],
                                     nm(r) if r.random() < .7 else None))
            return "query added"
    elif k == 30:
        if s.searches:
            s.searches.remove(r.choice(s.searches))
            return "query removed"
    elif k in (31, 32):
        u = pick(r, s.updates + s.deletes)
        if u:
            w = r.randrange(4)
            real = [f for f in s.fields if f.type != "struct"]
            if w == 0:
                doc(r, u)
            elif w == 1 and u in s.updates and real:
                f = r.choice(real)
                if f.rowid:
                    return None
                if u.mods and r.random() < .3:
                    u.mods = []
                else:
                    u.mods = [m for m in u.mods if m[0] != f.name] + [(f.name, "set")]
            elif w == 2 and real:
                f = r.choice(real)
                u.cons.append((f.name, g.op_for(f, False)))
            else:
                u.name = nm(r) if r.random() < .6 else None
            return "update part %d" % w
    elif k == 33:
        l = r.choice((s.updates, s.deletes))
        if l and r.random() < .5:
            l.remove(r.choice(l))
            return "update removed"
        real = [f for f in s.fields if f.type != "struct"]
        if real:
            f = r.choice(real)
            l.append(Update([], [(f.name, g.op_for(f, False))], nm(r) if r.random() < .7 else None))
            return "update added"
    elif k == 34:
        s.insert = not s.insert
        return "insert"
    elif k == 35:
        real = [f for f in s.fields if f.type != "struct"]
        if s.uniques and r.random() < .5:
            s.uniques.remove(r.choice(s.uniques))
        elif len(real) > 1:
            s.uniques.append(tuple(f.name for f in r.sample(real, 2)))
        return "unique"
    elif k == 36:
        x = r.random()
        if c.roles is None:
            c.roles = [Role(nm(r))]
        elif x < .15:
            c.roles = None
            for t in c.structs:
                t.roles = []
        elif x < .4:
            al = c.all_roles()
            (pick(r, al)[0].subs if al and r.random() < .6 else c.roles).append(Role(nm(r)))
        elif x < .6:
            al = c.all_roles()
            if al:
                doc(r, r.choice(al)[0])
        elif x < .8:
            al = c.all_roles()
            if al:
                x, p = r.choice(al)
                (p.subs if p else c.roles).remove(x)
        else:
            al = c.all_roles()
            if len(al) > 1:
                x, p = r.choice(al)
                (p.subs if p else c.roles).remove(x)
                al = c.all_roles()
                (pick(r, al)[0].subs if al else c.roles).append(x)
        return "roles"
    elif k == 37:
        if c.roles is not None:
            if s.roles and r.random() < .5:
                if r.random() < .5:
                    s.roles.remove(r.choice(s.roles))
                else:
                    i = r.randrange(len(s.roles))
                    rs, ops = s.roles[i]
                    names = ["default", "all"] + [x.name for x, _ in c.all_roles()]
                    y = r.random()
                    if y < .3:
                        s.roles[i] = ((r.choice(names),), ops)
                    elif y < .7:
                        s.roles[i] = (tuple(rs) + tuple(r.sample([n for n in names if n not in rs], 1)), ops)
                    elif len(rs) > 1:
                        s.roles[i] = (tuple(rs)[:-1], ops)
                    else:
                        s.roles[i] = (rs, ops[:-1] or ops)
            else:
                g.srole(c, s)
            return "role map"
    elif k == 38:
        t = Struct(nm(r), [Field(nm(r), "int", rowid=True), Field(nm(r), "text")], insert=True)
        c.structs.insert(r.randint(0, len(c.structs)), t)
        return "struct added"
    elif k == 39:
        if len(c.structs) > 1:
            c.structs.remove(s)
            return "struct removed"
    elif k >= 40:
        # another way to a field of the same name
        l = []
        for t in c.structs:
            ps = [p for p, f in g.paths(c, t)]
            ps += [p for p in g.spaths(c, t)]
            for q in t.searches:
                for kind, old in [("term%d" % i, x[0]) for i, x in enumerate(q.terms)] + \
                        [("order%d" % i, x[0]) for i, x in enumerate(q.order)] + \
                        ([("group", q.group[0]), ("aggr", q.group[2])] if q.group else []) + \
                        ([("distinct", q.distinct)] if q.distinct else []):
                    old = tuple(old)
                    l += [(q, kind, tuple(p)) for p in ps if tuple(p) != old and tuple(p)[-1:] == old[-1:]]
        if l:
            q, kind, p = r.choice(l)
            if kind.startswith("term"):
                i = int(kind[4:])
                q.terms[i] = (p,) + tuple(q.terms[i][1:])
            elif kind.startswith("order"):
                i = int(kind[5:])
                q.order[i] = (p,) + tuple(q.order[i][1:])
            elif kind == "distinct":
                q.distinct = p
            else:
                x = list(q.group)
                x[0 if kind == "group" else 2] = p
                q.group = tuple(x)
            return "query path"
    return None


def edited(r, c, n):
    """A clone of c with about n random edits, and the edits' names."""
    c = c.clone()
    done = []
    for _ in range(n):
        try:
            e = edit(r, c)
        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
            e = None                  # an earlier edit left a dangling reference
        if e:
            done.append(e)
    return c, done
