"""Configurations that are large in one dimension."""
import gen
from cfg import *


def _n(p, i):
    return "%s%d" % (p, i)


def structs(r, n):
    """Many structures."""
    c = Config()
    for i in range(n):
        s = Struct(_n("st", i), [Field("id", "int", rowid=True), Field("name", "text")], insert=True)
        if i and r.random() < .3:
            j = r.randrange(i)
            s.fields += [Field("refid", "int", ref=(_n("st", j), "id")), Field("ref", "struct", src="refid")] \
                if not any(f.type == "struct" for f in c.structs[j].fields) else [Field("refid", "int", ref=(_n("st", j), "id"))]
        s.searches.append(Search("search", [(("id",), "eq")], "by"))
        c.structs.append(s)
    r.shuffle(c.structs)
    return c


def types(r, n):
    """Many enumerations and bit-fields, with many items."""
    c = Config(structs=[Struct("st", [Field("id", "int", rowid=True)])])
    for i in range(n):
        c.enums.append(Enum(_n("en", i), [Item(_n("it", j)) for j in range(n if i == 0 else 2)]))
        c.bitfs.append(Bitf(_n("bf", i), [Item(_n("it", j), j) for j in range(64 if i % 32 == 0 else 2)]))
        c.structs[0].fields.append(Field(_n("fe", i), "enum", tname=_n("en", i)))
        c.structs[0].fields.append(Field(_n("fb", i), "bits", tname=_n("bf", i)))
    return c


def fields(r, n):
    """Many fields, in tuples of many fields."""
    s = Struct("st", [Field("id", "int", rowid=True)], insert=True)
    for i in range(n):
        s.fields.append(Field(_n("fd", i), r.choice(("int", "text", "real", "blob", "email", "epoch", "date", "bit")), null=r.random() < .3,
                              unique=r.random() < .1))
    s.uniques = [tuple(_n("fd", j) for j in range(i, n)) for i in range(0, n - 2, max(1, n // 12))]
    s.updates = [Update([], [("id", "eq")], "all"), Update([(_n("fd", j), "set") for j in range(n)], [("id", "eq")], "each"),
                 Update([(_n("fd", 0), "set")], [(_n("fd", j), "eq") for j in range(n)])]
    s.searches = [Search("list", [((_n("fd", j),), "eq") for j in range(n)], "all", order=[((_n("fd", j),), "asc") for j in range(n)])]
    return Config(structs=[s])


def queries(r, n):
    """Many operations."""
    s = Struct("st", [Field("id", "int", rowid=True), Field("v", "int"), Field("t", "text")], insert=True)
    for i in range(n):
        s.searches.append(Search(r.choice(("search", "list", "iterate", "count")), [(("v",), r.choice(("eq", "lt")))], _n("qu", i)))
        s.updates.append(Update([("v", "set")], [("id", "eq")], _n("up", i)))
        s.deletes.append(Update([], [("id", "eq")], _n("de", i)))
    return Config(structs=[s])


def roles(r, n):
    """Many roles, deep."""
    c = Config(structs=[Struct("st", [Field("id", "int", rowid=True)], insert=True)], roles=[])
    s = c.structs[0]
    at, deep = c.roles, 0
    for i in range(n):
        x = Role(_n("ro", i))
        at.append(x)
        deep += 1
        if deep > 60:                # (what compares them recurses)
            at, deep = c.roles, 0
        elif r.random() < .8:
            at = x.subs
        s.searches.append(Search("list", [(("id",), "eq")], _n("qu", i)))
        s.roles.append(((_n("ro", i),), [("list", _n("qu", i))]))
    return c


def aliases(r, n):
    """Many paths to structures."""
    k = max(2, int(n ** .5))
    a = Struct("aa", [Field("id", "int", rowid=True), Field("v", "int")])
    l = [a]
    for nm, t in (("bb", a), ("cc", None)):
        t = t or l[-1]
        s = Struct(nm, [Field("id", "int", rowid=True)])
        for i in range(k):
            s.fields += [Field(_n("r", i), "int", ref=(t.name, "id")), Field(_n("s", i), "struct", src=_n("r", i))]
        l.append(s)
    l[-1].searches = [Search("list", [((_n("s", i), _n("s", k - 1 - i), "v"), "eq")], _n("qu", i)) for i in range(0, k, max(1, k // 4))]
    return Config(structs=l)


def texts(r, n):
    """Long names and texts, many languages."""
    long = "x" + "y" * (20 * n)
    s = Struct("st", [Field("id", "int", rowid=True), Field("a" * n, "enum", tname="en", doc=long), Field("t", "text", default="d" * n)], doc=long * 4)
    e = Enum("en", [Item("i" * n, 1, labels={"": "label"}), Item("j", 2)])
    for i in range(n):
        lang = "".join(chr(97 + int(x)) for x in "%03d" % i)
        e.items[i % 2].labels[lang] = _n("label", i)
        e.isnull[lang] = _n("null", i)
    return Config(structs=[s], enums=[e])


KINDS = (structs, types, fields, queries, roles, aliases, texts)


def config(r, i, most):
    """One of size up to "most" in its dimension, but more than 256."""
    k = KINDS[i % len(KINDS)]
    return k.__name__, k(r, r.randint(257, max(258, most)))
