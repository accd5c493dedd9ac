"""Mutators: each takes a valid configuration and breaks exactly one rule that
ort(5) documents.  A mutator returns the mutated text (or list of files), or
None if the configuration offers nothing to break."""
import random
from cfg import *
from gen import Names, RESERVED

RULES = {}


class Skip(Exception):
    pass


def rule(name):
    def d(f):
        RULES[name] = f
        return f
    return d


def fresh(r, n=1):
    out = ["zz%sq%d" % (r.choice("abcdefgh"), r.randint(100, 99999)) for _ in range(n)]
    return out[0] if n == 1 else out


def pick(r, l):
    l = list(l)
    if not l:
        raise Skip
    return r.choice(l)


def real(s):
    return [f for f in s.fields if f.type != "struct"]


def casey(r, n):
    return "".join(x.upper() if r.random() < .5 else x for x in n)


def sf(r, c, pred):
    """A random (struct, field) satisfying pred."""
    return pick(r, [(s, f) for s in c.structs for f in s.fields if pred(s, f)])


def add_field(r, s, f):
    s.fields.insert(r.randint(0, len(s.fields)), f)
    return f


def any_struct(r, c):
    return pick(r, c.structs)


def chain(r, c, s, n=None, null=None):
    """Nest n new structures below s, the null'th reference of which may be
    null.  Returns the path of struct fields to the last, which has fields of
    many types."""
    n = n or r.choice((1, 2, 2, 3, 4))
    path, at = [], s
    for i in range(n):
        k = r.randint(1000, 99999)
        t = Struct("zzc%dk%d" % (i, k), [Field("id", "int", rowid=True), Field("txt", "text"), Field("num", "int"),
                                         Field("pw", "password"), Field("blo", "blob"), Field("rea", "real")])
        src = Field("zzr%dk%d" % (i, k), "int", ref=(t.name, "id"), null=null is not None and null % n == i)
        sub = Field("zzf%dk%d" % (i, k), "struct", src=src.name)
        add_field(r, at, src)
        add_field(r, at, sub)
        c.structs.insert(r.randint(0, len(c.structs)), t)
        path.append(sub.name)
        at = t
    return tuple(path)


def maybe_deep(r, c, s, name, shallow):
    """A path to a field of kind "name" below a new chain, or any shallow one."""
    if r.random() < .4 or not shallow:
        return chain(r, c, s) + (name,)
    return r.choice(shallow)


# ---- names
@rule("struct name used twice")
def _(r, c):
    s = any_struct(r, c)
    c.structs.append(Struct(s.name, [Field(fresh(r))]))


@rule("type and structure share a name")
def _(r, c):
    tops = [x.name for x in c.structs + c.enums + c.bitfs]
    n = pick(r, tops)
    k = r.randrange(3)
    if k == 0:
        c.structs.append(Struct(n, [Field(fresh(r))]))
    elif k == 1:
        c.enums.append(Enum(n, [Item("aa", 0)]))
    else:
        c.bitfs.append(Bitf(n, [Item("aa", 0)]))


@rule("field name used twice")
def _(r, c):
    s, f = sf(r, c, lambda s, f: True)
    s.fields.append(Field(f.name, r.choice(("int", "text", "blob"))))


@rule("enum item name used twice")
def _(r, c):
    e = pick(r, c.enums)
    e.items.append(Item(pick(r, e.items).name, 30000 + r.randint(0, 99)))


@rule("enum value used twice")
def _(r, c):
    e = pick(r, c.enums)
    i = pick(r, [i for i in e.items if i.value is not None])
    e.items.insert(r.randint(0, len(e.items)), Item(fresh(r), i.value))


@rule("bit name used twice")
def _(r, c):
    b = pick(r, c.bitfs)
    left = [x for x in range(64) if x not in [i.value for i in b.items]]
    b.items.append(Item(pick(r, b.items).name, r.choice(left)))


@rule("bit index used twice")
def _(r, c):
    b = pick(r, c.bitfs)
    b.items.insert(r.randint(0, len(b.items)), Item(fresh(r), pick(r, b.items).value))


@rule("bit index out of range")
def _(r, c):
    b = pick(r, c.bitfs)
    b.items.append(Item(fresh(r), r.choice((64, 65, -1, 1000, 2 ** 32, -64))))


@rule("enum value out of range")
def _(r, c):
    e = pick(r, c.enums)
    e.items.append(Item(fresh(r), r.choice((2 ** 63 - 1, 2 ** 63, -2 ** 63, 10 ** 30))))


@rule("empty enumeration")
def _(r, c):
    c.enums.append(Enum(fresh(r), []))


@rule("empty bitfield")
def _(r, c):
    c.bitfs.append(Bitf(fresh(r), []))


@rule("structure without fields")
def _(r, c):
    c.structs.append(Struct(fresh(r), []))


@rule("no structures")
def _(r, c):
    c.structs = []


@rule("reserved identifier")
def _(r, c):
    n = r.choice(("select", "where", "table", "order", "group", "index", "struct", "int", "return", "begin",
                  "unique", "default", "while", "sizeof", "switch", "typedef", "returning"))
    k = r.randrange(4)
    n = casey(r, n)
    if k == 0:
        c.structs.append(Struct(n, [Field(fresh(r))]))
    elif k == 1:
        s = any_struct(r, c)
        s.fields.append(Field(n))
    elif k == 2:
        c.enums.append(Enum(n, [Item("aa", 0)]))
    else:
        c.bitfs.append(Bitf(n, [Item("aa", 0)]))


# ---- references and types
@rule("unknown enumeration")
def _(r, c):
    add_field(r, any_struct(r, c), Field(fresh(r), "enum", tname=r.choice(
        [fresh(r)] + [x.name for x in c.structs + c.bitfs])))


@rule("unknown bitfield")
def _(r, c):
    add_field(r, any_struct(r, c), Field(fresh(r), "bits", tname=r.choice(
        [fresh(r)] + [x.name for x in c.structs + c.enums])))


@rule("reference to unknown structure")
def _(r, c):
    add_field(r, any_struct(r, c), Field(fresh(r), "int", ref=(fresh(r), "aa")))


@rule("reference to unknown field")
def _(r, c):
    add_field(r, any_struct(r, c), Field(fresh(r), "int", ref=(any_struct(r, c).name, fresh(r))))


@rule("reference to a field that is neither rowid nor unique")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type not in ("struct", "enum", "bits") and not f.rowid and not f.unique)
    add_field(r, any_struct(r, c), Field(fresh(r), f.type, ref=(s.name, f.name)))


@rule("reference with another type")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type not in ("struct",) and (f.rowid or f.unique))
    t = pick(r, [t for t in ("int", "text", "real", "blob", "date", "epoch", "email", "bit") if t != f.type])
    add_field(r, any_struct(r, c), Field(fresh(r), t, ref=(s.name, f.name)))


@rule("reference to a structure-typed field")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type == "struct")
    add_field(r, any_struct(r, c), Field(fresh(r), "int", ref=(s.name, f.name)))


@rule("substructure of an unknown field")
def _(r, c):
    add_field(r, any_struct(r, c), Field(fresh(r), "struct", src=fresh(r)))


@rule("substructure of a field that is no reference")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.ref is None)
    add_field(r, s, Field(fresh(r), "struct", src=f.name))


def rowid_of(r, s):
    x = s.rowid()
    if x is None:
        x = add_field(r, s, Field(fresh(r), "int", rowid=True))
    return x


@rule("structure containing itself")
def _(r, c):
    s = any_struct(r, c)
    x = rowid_of(r, s)
    a, b = "zzref%d" % r.randint(0, 99), "zzsub%d" % r.randint(100, 199)
    add_field(r, s, Field(a, "int", ref=(s.name, x.name)))
    add_field(r, s, Field(b, "struct", src=a))


@rule("structures containing each other")
def _(r, c):
    n = r.choice((2, 2, 3, 4))
    ns = ["zzcyc%d%d" % (i, r.randint(100, 999)) for i in range(n)]
    new = []
    for i, a in enumerate(ns):
        new.append(Struct(a, [Field("id", "int", rowid=True), Field("oid", "int", ref=(ns[(i + 1) % n], "id")),
                              Field("other", "struct", src="oid")]))
    if r.random() < .5:     # reachable only from another structure
        new.append(Struct("zzenter", [Field("oid", "int", ref=(ns[0], "id")), Field("other", "struct", src="oid")]))
    r.shuffle(new)
    c.structs += new


# ---- field information
@rule("two rowids")
def _(r, c):
    s = pick(r, [s for s in c.structs if s.rowid()])
    add_field(r, s, Field(fresh(r), "int", rowid=True))


@rule("rowid that is not an integer")
def _(r, c):
    s = pick(r, [s for s in c.structs if not s.rowid()])
    add_field(r, s, Field(fresh(r), r.choice(("text", "real", "blob", "date", "epoch", "email", "password", "bit")),
                          rowid=True))


@rule("rowid that may be null")
def _(r, c):
    s = any_struct(r, c)
    x = s.rowid() or add_field(r, s, Field(fresh(r), "int", rowid=True))
    x.null = True


@rule("nullify on a field that is never null")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.ref is not None and not f.null)
    setattr(f, r.choice(("actdel", "actup")), "nullify")


@rule("default action without null or default")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.ref is not None and not f.null and f.default is None)
    setattr(f, r.choice(("actdel", "actup")), "default")


@rule("action on a field that is no reference")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.ref is None and f.type != "struct")
    setattr(f, r.choice(("actdel", "actup")), r.choice(("restrict", "cascade", "none", "cascade")))
    if f.actdel == f.actup == "none":
        f.actdel = "cascade"


@rule("default of another type")
def _(r, c):
    t, d = r.choice((("int", 'default "abc"'), ("int", "default 1.5"), ("text", "default 5"), ("email", "default 1.5"),
                     ("real", 'default "1.0"'), ("blob", "default 5"), ("blob", 'default "x"'),
                     ("password", 'default "x"'), ("password", "default 1"),
                     ("date", 'default "2020-01-01"'), ("date", "default 2020-01-32"), ("date", "default 2020-13-01"),
                     ("date", "default 2020-00-10"), ("date", "default 2020-10-00"),
                     ("date", "default 2020-10"),
                     ("epoch", "default 2020.5"), ("bit", 'default "x"'), ("epoch", 'default "now"')))
    s = any_struct(r, c)
    return inject_stmt(r, c, s, "field %s %s %s;" % (fresh(r), t, d))


@rule("default that is no item of the enumeration")
def _(r, c):
    e = pick(r, c.enums)
    k = r.random()
    bad = fresh(r)
    if k < .4 and len(c.enums) > 1:
        o = pick(r, [x for x in c.enums if x is not e])
        cand = [i.name for i in o.items if i.name not in [j.name for j in e.items]]
        bad = r.choice(cand) if cand else bad
    add_field(r, any_struct(r, c), Field(fresh(r), "enum", tname=e.name, default=bad))


@rule("limit on an enumeration")
def _(r, c):
    e = pick(r, c.enums)
    add_field(r, any_struct(r, c), Field(fresh(r), "enum", tname=e.name, limits=[("gt", 0)]))


@rule("limit on a substructure")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type == "struct")
    f.limits = [(r.choice(("gt", "eq")), 1)]


@rule("limit given twice")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.limits)
    f.limits.append(pick(r, f.limits))


@rule("limit of another type")
def _(r, c):
    t, v = r.choice((("int", "1.5"), ("epoch", "0.5"), ("text", "1.5"), ("blob", "2.0"), ("email", '"x"'),
                     ("int", '"5"'), ("real", '"5"'), ("text", "-1"), ("blob", "-10"), ("password", "-3"),
                     ("email", "-1"), ("date", "1.0"), ("int", "foo")))
    return inject_stmt(r, c, any_struct(r, c), "field %s %s limit %s %s;" % (
        fresh(r), t, r.choice(("ge", "le", "eq", "lt", "gt")), v))


@rule("unknown limit operator")
def _(r, c):
    return inject_stmt(r, c, any_struct(r, c), "field %s int limit %s 5;" % (
        fresh(r), r.choice(("ne", "neq", "like", "foo", "min"))))


# ---- queries
def q_on(r, c):
    s = any_struct(r, c)
    t = r.choice(("search", "list", "iterate", "count"))
    q = Search(t, name=fresh(r))
    if t == "search":
        q.limit = 1
    s.searches.insert(r.randint(0, len(s.searches)), q)
    return s, q


def all_paths(c, s, depth=0, pre=(), pred=lambda f: True):
    out = []
    for f in s.fields:
        if f.type == "struct":
            if s.f(f.src).null or depth > 3:
                continue
            out += all_paths(c, c.target(s, f), depth + 1, pre + (f.name,), pred)
        elif pred(f):
            out.append(pre + (f.name,))
    return out


@rule("query on an unknown field")
def _(r, c):
    s, q = q_on(r, c)
    p = (fresh(r),)
    subs = [f for f in s.fields if f.type == "struct" and not s.f(f.src).null]
    if subs and r.random() < .6:
        p = (r.choice(subs).name, fresh(r))
    k = r.random()
    if k < .5 or q.type in ("search", "count"):
        q.terms = [(p, "eq")]
    elif k < .7:
        q.order = [(p, "asc")]
    elif k < .85:
        q.distinct = p
    else:
        ok = [f for f in real(s) if not f.null and f.type != "password"]
        q.group = (p, "maxrow", (pick(r, ok).name,))


@rule("query on a structure-typed field")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type == "struct")
    q = Search(r.choice(("list", "count", "iterate", "search")), name=fresh(r), limit=0)
    if q.type == "search":
        q.limit = 1
    s.searches.append(q)
    if r.random() < .6 or q.type in ("search", "count"):
        q.terms = [((f.name,), r.choice(("eq", "gt", "isnull")))]
    else:
        q.order = [((f.name,), "desc")]


@rule("query through a field that is no structure")
def _(r, c):
    s, q = q_on(r, c)
    f = pick(r, real(s))
    q.terms = [((f.name, r.choice((f.name, "id"))), "eq")]


@rule("query through a substructure that may be null")
def _(r, c):
    q = Search(r.choice(("list", "iterate")), name=fresh(r))
    if r.random() < .5:
        s = any_struct(r, c)
        p = chain(r, c, s, null=r.randrange(4)) + (r.choice(("txt", "num", "id")),)
    else:
        s, f = sf(r, c, lambda s, f: f.type == "struct" and s.f(f.src).null)
        t = c.target(s, f)
        p = (f.name, pick(r, [x for x in t.fields if x.type not in ("struct", "password")]).name)
    s.searches.append(q)
    k = r.random()
    if k < .5:
        q.terms = [(p, "eq")]
    elif k < .8:
        q.order = [(p, "asc")]
    else:
        q.group = (p, "maxrow", p[:-1] + ("rea",)) if p[0].startswith("zzf") else None
        if q.group is None:
            q.terms = [(p, "eq")]


@rule("like on a field that is not text")
def _(r, c):
    s, q = q_on(r, c)
    q.terms = [(maybe_deep(r, c, s, r.choice(("num", "blo", "pw", "rea")),
                           all_paths(c, s, pred=lambda f: f.type not in ("text", "email"))), "like")]


@rule("bit operator on a field that has no bits")
def _(r, c):
    s, q = q_on(r, c)
    q.terms = [(maybe_deep(r, c, s, r.choice(("txt", "blo", "pw", "rea")),
                           all_paths(c, s, pred=lambda f: f.type not in ("bit", "bits", "int"))), r.choice(("and", "or")))]


@rule("ordering operator on a password")
def _(r, c):
    s, q = q_on(r, c)
    q.terms = [(maybe_deep(r, c, s, "pw", all_paths(c, s, pred=lambda f: f.type == "password")),
                r.choice(("lt", "gt", "ge", "le", "like")))]


@rule("hashed comparison in a count")
def _(r, c):
    s, q = q_on(r, c)
    q.type, q.limit = "count", 0
    q.terms = [(maybe_deep(r, c, s, "pw", all_paths(c, s, pred=lambda f: f.type == "password")), r.choice(("eq", "neq")))]


@rule("hashed comparison in a distinct query")
def _(r, c):
    s, q = q_on(r, c)
    q.type, q.limit, q.distinct = "list", 0, ()
    q.terms = [(maybe_deep(r, c, s, "pw", all_paths(c, s, pred=lambda f: f.type == "password")), r.choice(("eq", "neq")))]


@rule("unknown operator")
def _(r, c):
    s, q = q_on(r, c)
    q.terms = [(pick(r, all_paths(c, s)), r.choice(("equals", "is", "ne", "contains")))]


@rule("query name used twice")
def _(r, c):
    s = pick(r, [s for s in c.structs if any(q.name for q in s.searches)])
    n = pick(r, [q.name for q in s.searches if q.name])
    q = Search(r.choice(("list", "iterate", "count")), name=casey(r, n))
    s.searches.insert(r.randint(0, len(s.searches)), q)


@rule("group and aggregate on the same column")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type not in ("struct", "password") and not f.null)
    s.searches.append(Search("list", name=fresh(r), group=((f.name,), r.choice(("maxrow", "minrow")), (f.name,))))


@rule("group or aggregate on a null, password or structure column")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type in ("struct", "password") or f.null)
    g = pick(r, [x for x in s.fields if x is not f and x.type not in ("struct", "password") and not x.null])
    a, b = ((f.name,), (g.name,))
    if r.random() < .5:
        a, b = b, a
    s.searches.append(Search("list", name=fresh(r), group=(a, r.choice(("maxrow", "minrow")), b)))


@rule("group without aggregate")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type not in ("struct", "password") and not f.null)
    return inject_stmt(r, c, s, "list: name %s grouprow %s;" % (fresh(r), f.name))


@rule("distinct on a field that is no structure")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type != "struct")
    s.searches.append(Search("list", name=fresh(r), distinct=(f.name,)))


@rule("distinct on a substructure that may be null")
def _(r, c):
    if r.random() < .7:
        s = any_struct(r, c)
        p = chain(r, c, s, null=r.randrange(4))
    else:
        s, f = sf(r, c, lambda s, f: f.type == "struct" and s.f(f.src).null)
        p = (f.name,)
    s.searches.append(Search(r.choice(("list", "iterate", "count")), name=fresh(r), distinct=p))


@rule("query parameter given twice")
def _(r, c):
    s = any_struct(r, c)
    p = r.choice(('comment "a" comment "b"', "distinct . distinct ."))
    return inject_stmt(r, c, s, "list: %s;" % p)


@rule("negative or malformed limit")
def _(r, c):
    return inject_stmt(r, c, any_struct(r, c), "list: name %s limit %s;" % (
        fresh(r), r.choice(("-1", "-5,2", "5,-1", '"5"', "foo", "", "5,", "1.5"))))


# ---- updates
def u_on(r, c, s=None):
    s = s or pick(r, [s for s in c.structs if real(s)])
    u = Update([(pick(r, real(s)).name, "set")], [], name=fresh(r))
    s.updates.append(u)
    return s, u


@rule("update of an unknown field")
def _(r, c):
    s, u = u_on(r, c)
    if r.random() < .5:
        u.mods = [(fresh(r), "set")]
    else:
        u.cons = [(fresh(r), "eq")]


@rule("delete by an unknown field")
def _(r, c):
    s = any_struct(r, c)
    s.deletes.append(Update([], [(fresh(r), "eq")], name=fresh(r)))


@rule("update or delete with a structure-typed field")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type == "struct")
    k = r.randrange(3)
    if k == 0:
        u_on(r, c, s)[1].mods = [(f.name, "set")]
    elif k == 1:
        u_on(r, c, s)[1].cons = [(f.name, "eq")]
    else:
        s.deletes.append(Update([], [(f.name, "eq")], name=fresh(r)))


@rule("increment of a field that is not numeric")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type in ("text", "email", "blob", "password"))
    u_on(r, c, s)[1].mods = [(f.name, r.choice(("inc", "dec")))]


@rule("concatenation to a field that is not text")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type in ("int", "real", "enum", "bits", "bit", "date", "epoch", "password"))
    u_on(r, c, s)[1].mods = [(f.name, "concat")]


@rule("unknown modifier")
def _(r, c):
    s, u = u_on(r, c)
    u.mods = [(u.mods[0][0], r.choice(("add", "plus", "append", "eq", "like")))]


@rule("hashed or ordered password constraint of an update or delete")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type == "password")
    op = r.choice(("eq", "neq", "lt", "ge", "like"))
    if r.random() < .5:
        u_on(r, c, s)[1].cons = [(f.name, op)]
    else:
        s.deletes.append(Update([], [(f.name, op)], name=fresh(r)))


@rule("like constraint of an update or delete on a field that is not text")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type not in ("text", "email", "struct"))
    if r.random() < .5:
        u_on(r, c, s)[1].cons = [(f.name, "like")]
    else:
        s.deletes.append(Update([], [(f.name, "like")], name=fresh(r)))


@rule("bit constraint of an update or delete on a field that has no bits")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type not in ("bit", "bits", "int", "struct"))
    if r.random() < .5:
        u_on(r, c, s)[1].cons = [(f.name, r.choice(("and", "or")))]
    else:
        s.deletes.append(Update([], [(f.name, r.choice(("and", "or")))], name=fresh(r)))


@rule("update or delete name used twice")
def _(r, c):
    k = r.choice(("updates", "deletes"))
    s = pick(r, [s for s in c.structs if any(u.name for u in getattr(s, k))])
    u = pick(r, [u for u in getattr(s, k) if u.name])
    n = u.clone() if hasattr(u, "clone") else Update(list(u.mods), list(u.cons), casey(r, u.name))
    if k == "deletes":
        n.cons = n.cons[:1] if r.random() < .5 else []
    getattr(s, k).append(n)


@rule("insert given twice")
def _(r, c):
    s = any_struct(r, c)
    s.insert = True
    return inject_stmt(r, c, s, "insert;")


# ---- unique
@rule("unique over one field")
def _(r, c):
    s = any_struct(r, c)
    s.uniques.append((pick(r, real(s)).name,))


@rule("unique over an unknown field")
def _(r, c):
    s = any_struct(r, c)
    u = [pick(r, real(s)).name, fresh(r)]
    r.shuffle(u)
    s.uniques.append(tuple(u))


@rule("unique over a structure-typed field")
def _(r, c):
    s, f = sf(r, c, lambda s, f: f.type == "struct")
    u = [pick(r, real(s)).name, f.name]
    r.shuffle(u)
    s.uniques.append(tuple(u))


@rule("unique over a field twice")
def _(r, c):
    s = any_struct(r, c)
    f = pick(r, real(s))
    s.uniques.append((f.name, f.name))


@rule("unique combination given twice")
def _(r, c):
    s = pick(r, [s for s in c.structs if len(real(s)) >= 2])
    if not s.uniques:
        s.uniques.append(tuple(f.name for f in r.sample(real(s), 2)))
    u = list(pick(r, s.uniques))
    r.shuffle(u)
    s.uniques.insert(r.randint(0, len(s.uniques)), tuple(u))


# ---- roles
def need_roles(c):
    if c.roles is None:
        raise Skip


def mk_roles(r, c):
    if c.roles is None:
        c.roles = [Role("zzra"), Role("zzrb", None, [Role("zzrc")])]


@rule("reserved role defined")
def _(r, c):
    mk_roles(r, c)
    n = Role(casey(r, r.choice(("all", "none", "default"))))
    rs = [x for x, _ in c.all_roles()]
    if rs and r.random() < .5:
        r.choice(rs).subs.append(n)
    else:
        c.roles.append(n)


@rule("role name used twice")
def _(r, c):
    mk_roles(r, c)
    rs = [x for x, _ in c.all_roles()]
    a = pick(r, rs)
    n = Role(casey(r, a.name))
    k = r.random()
    if k < .3:
        a.subs.append(n)
    elif k < .6:
        c.roles.append(n)
    else:
        r.choice(rs).subs.append(n)


@rule("two role blocks")
def _(r, c):
    mk_roles(r, c)
    t = toks_all(r, c)
    t.insert(r.randint(0, len(t)), "roles { %s };" % ("role %s;" % fresh(r) if r.random() < .5 else ""))
    return t


@rule("unknown role assigned")
def _(r, c):
    mk_roles(r, c)
    s = any_struct(r, c)
    n = fresh(r)
    rs = [n] + ([pick(r, c.all_roles())[0].name] if c.all_roles() and r.random() < .5 else [])
    r.shuffle(rs)
    s.roles.append((tuple(rs), [("all", None)]))


@rule("role none assigned")
def _(r, c):
    mk_roles(r, c)
    s = any_struct(r, c)
    s.roles.append((("none",), [(r.choice(("all", "noexport")), None)]))


@rule("roles on an unknown operation")
def _(r, c):
    mk_roles(r, c)
    s = any_struct(r, c)
    k = r.choice(("search", "list", "iterate", "count", "update", "delete", "noexport"))
    n = fresh(r)
    other = []
    if k in ("search", "list", "iterate", "count"):
        other = [q.name for q in s.searches if q.name and q.type != k]
    elif k == "update":
        other = [u.name for u in s.deletes if u.name and u.name not in [x.name for x in s.updates]]
    elif k == "delete":
        other = [u.name for u in s.updates if u.name and u.name not in [x.name for x in s.deletes]]
    if other and r.random() < .6:
        n = r.choice(other)
    s.roles.append((("all",), [(k, n)]))


@rule("roles on an insert that is not there")
def _(r, c):
    mk_roles(r, c)
    s = pick(r, [s for s in c.structs if not s.insert])
    s.roles.append((("all",), [("insert", None)]))


@rule("role given twice to an operation")
def _(r, c):
    mk_roles(r, c)
    s = any_struct(r, c)
    s.searches.append(Search("list", name="zzrole"))
    n = r.choice(["default", "all"] + [x.name for x, _ in c.all_roles()])
    s.roles.append(((n, n), [("list", "zzrole")]))


# ---- comments and labels
@rule("comment given twice")
def _(r, c):
    k = r.randrange(4)
    if k == 0:
        return inject_stmt(r, c, any_struct(r, c), 'field %s int comment "a" comment "%s";' % (fresh(r), r.choice("ab")))
    if k == 1:
        s = any_struct(r, c)
        s.doc = s.doc or "x"
        return inject_stmt(r, c, s, 'comment "again";')
    t = toks_all(r, c)
    t.append({2: 'enum zzen { item aa comment "a" comment "b"; };',
              3: 'bits zzen { comment "a"; item aa 1; comment "a"; };'}[k])
    return t


@rule("empty label")
def _(r, c):
    t = toks_all(r, c)
    l = r.choice(('jslabel ""', 'jslabel.en ""', 'jslabel "x" jslabel.fr ""'))
    t.append(r.choice(("enum zzen { item aa %s; };", "bits zzen { item aa 1 %s; };",
                       "enum zzen { item aa; isnull %s; };", "bits zzen { item aa 1; isunset %s; };",
                       "bits zzen { item aa 1; isnull %s; };")) % l)
    return t


@rule("bit without index")
def _(r, c):
    t = toks_all(r, c)
    t.append("bits zzbf { item aa%s; };" % r.choice(("", ' comment "x"', ' "x"', " 1.5")))
    return t


# ---- syntax
def toks_all(r, c):
    return [render(o, Style()) for o in toks_config(c, Style())]


def inject_stmt(r, c, s, stmt):
    """Add one raw statement to struct s."""
    out = []
    for o in toks_config(c, Style()):
        if len(o) > 2 and o[0] == "struct" and o[1] == s.name:
            t = render(o, Style())
            k = t.index("{") + 1
            if r.random() < .5:
                k = t.rindex("}")
            t = t[:k] + "\n" + stmt + "\n" + t[k:]
            out.append(t)
        else:
            out.append(render(o, Style()))
    return out


@rule("missing punctuation")
def _(r, c):
    objs = toks_config(c, Style())
    i = r.randrange(len(objs))
    o = list(objs[i])
    cand = [k for k, t in enumerate(o) if t in (";", "{", "}") and not isinstance(t, Str)
            and not (t == ";" and "comment" in o[k + 1:k + 3])]
    k = pick(r, cand)
    del o[k]
    objs[i] = o
    return [render(x, Style()) for x in objs]


@rule("stray token")
def _(r, c):
    objs = toks_config(c, Style())
    i = r.randrange(len(objs))
    o = list(objs[i])
    k = r.choice([k for k, t in enumerate(o) if t == ";" and not isinstance(t, Str)])
    o.insert(k, r.choice(("{", "}", "@", "$", "[", "(", "=", "_", "!", "*", "/", "\\", "'", "-", "%", "&")))
    objs[i] = o
    return [render(x, Style()) for x in objs]


@rule("underscore or non-ASCII identifier")
def _(r, c):
    t = toks_all(r, c)
    t.append(r.choice(("struct zz_bad { field aa int; };", "struct zzbad { field a_b int; };",
                       "enum zz_e { item aa; };", "struct 1zz { field aa int; };", "struct zzé { field aa int; };",
                       "struct zzbad { field -aa int; };", "struct zzbad { field é int; };",
                       'struct "zzbad" { field aa int; };')))
    return t


@rule("unknown statement")
def _(r, c):
    if r.random() < .4:
        t = toks_all(r, c)
        t.insert(r.randint(0, len(t)), r.choice(("table foo { field a int; };", "role x;", "field x int;", "insert;",
                                                 "structs foo { field a int; };", '"struct" foo { field a int; };')))
        return t
    return inject_stmt(r, c, any_struct(r, c), r.choice((
        "column x int;", "select;", "role x;", "item foo;", "field x integers;", "field zza int foo;",
        "field zza int notnull;", "list: foo 1;", "update zzz: : foo x;", "isnull;", "queries;")))


@rule("truncated input")
def _(r, c):
    t = "".join(toks_all(r, c)).rstrip()
    # cut anywhere before the final semicolon, after the first keyword's start
    last = t.rindex(";")
    # only cuts within the last object leave an incomplete statement
    objs = [x for x in toks_all(r, c)]
    k = r.randrange(len(objs))
    o = objs[k].rstrip()
    cut = r.randrange(1, len(o) - 1) if len(o) > 2 else 1
    return ["".join(objs[:k]) + o[:cut]]


def mutate(r, name, c, nfiles=1, style=None):
    """Texts of the files of a configuration that breaks rule `name`."""
    c = c.clone()
    try:
        res = RULES[name](r, c)
    except Skip:
        return None
    if res is None:
        st = style or Style()
        res = [render(o, st) for o in toks_config(c, st)]
    fs = [[] for _ in range(nfiles)]
    if name == "truncated input":
        return ["".join(res)]
    for o in res:
        fs[r.randrange(nfiles)].append(o)
    return ["\n".join(f) + "\n" for f in fs]
