"""Read the dump of an in-memory configuration (lib/c/libdrv.c) into cfg.Config,
checking what ort(3) says of its parts on the way."""
import json
from cfg import *


class Bad(Exception):
    def __init__(self, key, what=""):
        Exception.__init__(self, key)
        self.key, self.what = key, what


def need(c, key, what=""):
    if not c:
        raise Bad(key, str(what))


def text(s):
    return None if s is None else bytes.fromhex(s).decode("utf-8", "surrogateescape")


class Mem:
    """One configuration: .j the dump, .o its objects by identifier, .c the Config."""

    def __init__(self, raw):
        try:
            self.j = json.loads(raw)
        except ValueError as e:
            raise Bad("dump isn't JSON", e)
        self.o = {}
        self.kind = {}
        self.pos = []
        self.facts = 0
        self.walk(self.j)
        self.register()

    def walk(self, v, at=""):
        if isinstance(v, dict):
            for k, x in v.items():
                need(x != "?", "%s points outside of the configuration" % k, at)
                need(not (k == "xflags" and x), "unknown flags", (at, x))
                self.walk(x, at + "/" + k)
        elif isinstance(v, list):
            for x in v:
                need(x != "?", "%s points outside of the configuration" % at, at)
                self.walk(x, at)

    def put(self, kind, o):
        self.o[o["id"]] = o
        self.kind[o["id"]] = kind

    def register(self):
        j = self.j
        for s in j["sq"]:
            self.put("strct", s)
            for k, q in (("field", "fq"), ("search", "sq"), ("alias", "aq"), ("update", "uq"), ("update", "dq"), ("rolemap", "rq")):
                for x in s[q]:
                    self.put(k, x)
            for n, x in enumerate(s["nq"]):
                x["id"] = "%s.n%d" % (s["id"], n)
                self.put("unique", x)
            if "ins" in s:
                s["ins"]["id"] = s["id"] + ".i"
                self.put("insert", s["ins"])
        for k, q in (("enm", "eq"), ("bitf", "bq")):
            for e in j[q]:
                self.put(k, e)
                for x in e[q]:
                    self.put({"enm": "eitem", "bitf": "bitidx"}[k], x)
        for x in j["arq"]:
            self.put("role", x)

    def get(self, i, kind, key):
        """Object with the given identifier, which must be of a kind."""
        need(i in self.o and self.kind[i] == kind, "%s isn't a %s" % (key, kind), i)
        self.facts += 1
        return self.o[i]

    def name(self, i, kind, key="reference"):
        return text(self.get(i, kind, key)["name"])

    def at(self, o, kind, *names):
        p = o["pos"]
        self.pos.append((kind, names, text(p["fname"]), p["line"], p["column"]))

    # ---------------------------------------------------------------
    def config(self):
        j = self.j
        c = Config()
        langs = [text(x["lang"]) for x in j["langs"]]
        need(len(set(langs)) == len(langs), "languages repeated", langs)
        need(langs[:1] == [""], "first language isn't the default", langs)
        used = set()

        def labels(l, kind):
            out = {}
            for x in l:
                need(x["lang"] < len(langs), "language of label outside of array", x)
                self.at(x, "label")
                need(x["label"] is not None, "label without text", x)
                g = langs[x["lang"]]
                used.add(g)
                need(g not in out, "label repeated", x)
                out[g] = text(x["label"])
            return out
        for e in j["eq"]:
            x = Enum(text(e["name"]), [], text(e["doc"]), labels(e["labels_null"], "enum"))
            self.at(e, "enum", x.name)
            mx, auto = None, []
            for i in e["eq"]:
                need(i["parent"] == e["id"], "parent of enum item", i)
                self.at(i, "item", x.name, text(i["name"]))
                v = int(i["value"])
                x.items.append(Item(text(i["name"]), v, text(i["doc"]), labels(i["labels"], "item")))
                if i["auto"]:
                    auto.append(v)
                else:
                    mx = v if mx is None else max(mx, v)
            first = 0 if mx is None else max(mx + 1, 0)
            need(auto == list(range(first, first + len(auto))), "automatic values", (mx, auto))
            x.auto = [bool(i["auto"]) for i in e["eq"]]
            need(x.items, "empty enumeration", x.name)
            c.enums.append(x)
        for e in j["bq"]:
            x = Bitf(text(e["name"]), [], text(e["doc"]), labels(e["labels_unset"], "bits"), labels(e["labels_null"], "bits"))
            self.at(e, "bits", x.name)
            for i in e["bq"]:
                need(i["parent"] == e["id"], "parent of bit", i)
                self.at(i, "item", x.name, text(i["name"]))
                need(0 <= int(i["value"]) <= 64, "value of bit", i)
                x.items.append(Item(text(i["name"]), int(i["value"]), text(i["doc"]), labels(i["labels"], "item")))
            need(x.items, "empty bitfield", x.name)
            c.bitfs.append(x)
        need(used | {""} == set(langs), "languages without labels", (used, langs))
        self.roles(c)
        for s in j["sq"]:
            c.structs.append(self.struct(c, s))
        need(c.structs, "no structures")
        need(bool(j["pass"]) == any(f.type == "password" for s in c.structs for f in s.fields), "CONFIG_HAS_PASS", j["pass"])
        for s, o in zip(c.structs, j["sq"]):
            self.resolve(c, s, o)
        self.flags(c)
        return c

    def roles(self, c):
        j = self.j
        if not j["arq"]:
            need(not j["rq"], "top-level roles but no roles", j["rq"])
            return
        top = [self.name(i, "role") for i in j["rq"]]
        need(sorted(top) == ["all", "default", "none"], "top-level roles", top)
        seen = set()

        def role(i, parent):
            o = self.get(i, "role", "role")
            need(i not in seen, "role twice", i)
            seen.add(i)
            need(o["parent"] == parent, "parent of role", o)
            if text(o["name"]) not in ("all", "default", "none"):
                self.at(o, "role", text(o["name"]))
            return Role(text(o["name"]), text(o["doc"]), [role(k, i) for k in o["subrq"]])
        t = [role(i, "-") for i in j["rq"]]
        need(len(seen) == len(j["arq"]), "roles outside of the hierarchy", (seen, j["arq"]))
        for r in t:
            if r.name == "all":
                c.roles = r.subs
            else:
                need(not r.subs, "subordinates of " + r.name)

    def rolenames(self, i):
        """Names of the roles of a rolemap."""
        if i == "-":
            return None
        o = self.get(i, "rolemap", "rolemap")
        l = [self.name(x["role"], "role") for x in o["rq"]]
        need(l, "empty rolemap", o)
        need(len(set(l)) == len(l), "roles repeated in rolemap", l)
        return set(l)

    def struct(self, c, o):
        s = Struct(text(o["name"]), doc=text(o["doc"]))
        self.at(o, "struct", s.name)
        need(o["cfg"] == 1, "configuration of structure", s.name)
        for f in o["fq"]:
            s.fields.append(self.field(o, s, f))
        need(s.fields, "structure without fields", s.name)
        rid = [f["id"] for f in o["fq"] if f["rowid"]]
        need([o["rowid"]] == (rid or ["-"]), "rowid of structure", (o["rowid"], rid))
        need(bool(o["blob"]) == any(f.type == "blob" for f in s.fields), "STRCT_HAS_BLOB", s.name)
        for q in o["sq"]:
            s.searches.append(self.search(o, s, q))
        for k, l in (("uq", s.updates), ("dq", s.deletes)):
            for u in o[k]:
                l.append(self.update(o, s, u, "update" if k == "uq" else "delete"))
        if "ins" in o:
            s.insert = True
            need(o["ins"]["parent"] == o["id"], "parent of insert", s.name)
            self.at(o["ins"], "insert")
        for u in o["nq"]:
            need(u["parent"] == o["id"], "parent of unique", s.name)
            self.at(u, "unique")
            l = []
            for r in u["nq"]:
                need(r["parent"] == 1, "parent of unique's field", s.name)
                l.append(self.own(o, r["field"], "unique"))
                self.at(r, "unique field", l[-1])
            need(l == sorted(l), "order of unique's fields", l)
            need(len(set(l)) == len(l), "unique's fields repeated", l)
            s.uniques.append(tuple(l))
        kinds = {"update": "update", "delete": "update", "noexport": "field", "count": "search", "iterate": "search",
                 "list": "search", "search": "search"}
        for m in o["rq"]:
            need(m["parent"] == o["id"], "parent of rolemap", s.name)
            l = tuple(sorted(self.rolenames(m["id"])))
            for x in m["rq"]:
                need(x["parent"] == 1, "parent of rolemap's role", s.name)
                self.at(x, "rolemap")
            n = None
            if m["of"] != "-":
                t = self.get(m["of"], kinds.get(m["type"], "-"), "rolemap's object")
                need(t["parent"] == o["id"], "rolemap of another structure's object", m)
                need(t["rolemap"] == m["id"], "rolemap isn't that of its object", m)
                n = text(t["name"])
                if kinds[m["type"]] != "field":
                    need(t["type"] == m["type"], "type of rolemap", (m["type"], t["type"]))
            else:
                need(m["type"] in ("all", "insert", "noexport"), "rolemap of nothing", m)
            s.roles.append((l, [(m["type"], n)]))
        return s

    def own(self, o, i, key):
        f = self.get(i, "field", key)
        need(f["parent"] == o["id"], "%s: field of another structure" % key, i)
        return text(f["name"])

    def field(self, so, s, f):
        n = text(f["name"])
        need(f["parent"] == so["id"], "parent of field", n)
        self.at(f, "field", s.name, n)
        x = Field(n, f["type"], doc=text(f["doc"]), actdel=f["actdel"], actup=f["actup"])
        for k in ("rowid", "null", "unique", "noexport"):
            setattr(x, k, bool(f[k]))
        need((f["enm"] != "-") == (x.type == "enum"), "enumeration of field", f)
        need((f["bitf"] != "-") == (x.type == "bits"), "bitfield of field", f)
        if x.type in ("enum", "bits"):
            k, i = ("enm", f["enm"]) if x.type == "enum" else ("bitf", f["bitf"])
            x.tname = self.name(i, k)
        r = f["ref"]
        if r is not None:
            need(r["parent"] == f["id"], "parent of reference", r)
            t = self.get(r["target"], "field", "target of reference")
            q = self.get(r["source"], "field", "source of reference")
            tn = (self.name(t["parent"], "strct"), text(t["name"]))
            if x.type == "struct":
                need(q["parent"] == so["id"], "source of local reference", r)
                need(q["ref"] is not None and q["type"] != "struct", "source isn't a foreign key", r)
                need(q["ref"]["target"] == r["target"], "targets of local and remote reference", r)
                x.src = text(q["name"])
            else:
                need(r["source"] == f["id"], "source of remote reference", r)
                need(t["type"] == x.type, "type of reference's target", (x.type, t["type"]))
                x.ref = tn
        else:
            need(x.type != "struct", "structure without reference", n)
        conv = float if x.type == "real" else int
        if f["hasdef"]:
            d = f["def"]
            if x.type == "enum":
                i = self.get(d, "eitem", "default")
                need(i["parent"] == f["enm"], "default of another enumeration", n)
                x.default = text(i["name"])
            elif x.type in ("text", "email"):
                x.default = text(d)
            else:
                x.default = conv(d)
        for t, v in f["fvq"]:
            x.limits.append((t, conv(v)))
        return x

    def path(self, o, s, q, e, kind):
        """Dotted name of part e of query q, having checked all that repeats it."""
        p = text(e["fname"]).split(".")
        need(e["parent"] == q["id"], "parent of " + kind, e)
        self.at(e, kind, p[0])
        at = o
        need(len(e["chain"]) == len(p), "length of chain of " + kind, e)
        for n, (i, w) in enumerate(zip(e["chain"], p)):
            f = self.get(i, "field", "chain")
            need(f["parent"] == at["id"] and text(f["name"]) == w, "chain of " + kind, (p, i))
            if n + 1 < len(p):
                need(f["type"] == "struct", "chain of %s through no structure" % kind, (p, i))
                at = self.get(self.get(f["ref"]["target"], "field", "target")["parent"], "strct", "target")
        need(e["field"] == e["chain"][-1], "field of " + kind, e)
        if len(p) == 1:
            need(e["name"] is None, "name of %s in same structure" % kind, e)
            need(e["alias"] == "-", "alias of %s in same structure" % kind, e)
        else:
            need(e["name"] is not None and text(e["name"]) == ".".join(p[:-1]), "name of " + kind, e)
            a = self.get(e["alias"], "alias", "alias of " + kind)
            need(e["alias"].startswith(o["id"] + "."), "alias of another structure", e)
            need(text(a["name"]) == ".".join(p[:-1]), "alias of " + kind, (a, p))
        return tuple(p)

    def search(self, o, s, q):
        need(q["parent"] == o["id"], "parent of query", s.name)
        self.at(q, "query")
        x = Search(q["type"], [], text(q["name"]), text(q["doc"]), limit=q["limit"], offset=q["offset"])
        for e in q["sntq"]:
            p = self.path(o, s, q, e, "term")
            need(text(e["uname"]) == "_".join(p), "uname of term", e)
            x.terms.append((p, e["op"]))
        for e in q["ordq"]:
            x.order.append((self.path(o, s, q, e, "order"), e["op"]))
        need(("aggr" in q) == ("group" in q), "aggregate without group", q)
        if "aggr" in q:
            x.group = (self.path(o, s, q, q["group"], "group"), q["aggr"]["op"], self.path(o, s, q, q["aggr"], "aggregate"))
        if "dst" in q:
            d = q["dst"]
            need(d["parent"] == q["id"], "parent of distinct", q)
            self.at(d, "distinct")
            fn = text(d["fname"])
            x.distinct = () if fn == "." else tuple(fn.split("."))
            at = o
            need(len(d["chain"]) == len(x.distinct), "length of chain of distinct", d)
            for i, w in zip(d["chain"], x.distinct):
                f = self.get(i, "field", "chain of distinct")
                need(f["parent"] == at["id"] and text(f["name"]) == w and f["type"] == "struct", "chain of distinct", d)
                at = self.get(self.get(f["ref"]["target"], "field", "target")["parent"], "strct", "target")
            need(d["strct"] == at["id"], "structure of distinct", d)
        return x

    def update(self, o, s, u, kind):
        need(u["parent"] == o["id"], "parent of " + kind, s.name)
        need(u["type"] == kind, "type of " + kind, u["type"])
        self.at(u, kind)
        for r in u["mrq"] + u["crq"]:
            need(r["parent"] == u["id"], "parent of reference", r)
            self.at(r, "reference", *([] if u["all"] else [self.own(o, r["field"], "reference")]))
        mods = [(self.own(o, r["field"], "modifier"), r["mod"]) for r in u["mrq"]]
        x = Update(mods, [(self.own(o, r["field"], "constraint"), r["op"]) for r in u["crq"]], text(u["name"]), text(u["doc"]))
        need((kind == "update") == bool(mods), "modified fields of " + kind, mods)
        if u["all"]:
            need(kind == "update", "UPDATE_ALL of delete", u)
            w = [f.name for f in s.fields if not f.rowid and f.type != "struct"]
            need(sorted(w) == sorted(n for n, _ in mods) and all(m == "set" for _, m in mods), "fields of UPDATE_ALL", (w, mods))
            x.mods = []
        return x

    def resolve(self, c, s, o):
        """Rolemaps and aliases."""
        nx, ro = c.noexport_roles(s), c.op_roles(s)

        def same(i, want, what):
            got = self.rolenames(i)
            need((got or set()) == want, "rolemap of " + what, (s.name, got, want))
            if i != "-":
                need(i.startswith(o["id"] + "."), "rolemap of another structure", i)
        for f in o["fq"]:
            same(f["rolemap"], nx[text(f["name"])], "field")
        for (k, i), w in ro.items():
            l = {"query": o["sq"], "update": o["uq"], "delete": o["dq"], "insert": [o.get("ins")]}[k]
            same(l[i]["rolemap"], w, k)
        want = []

        def paths(t, pre):
            for f in t.fields:
                if f.type == "struct":
                    want.append(pre + f.name)
                    paths(c.target(t, f), pre + f.name + ".")
        paths(s, "")
        got = [text(a["name"]) for a in o["aq"]]
        need(sorted(got) == sorted(want), "aliases of structure", (s.name, got, want))
        al = [text(a["alias"]) for a in o["aq"]]
        need(len(set(al)) == len(al) and all(al), "aliases aren't distinct", al)
        need(not set(x.lower() for x in al) & {x.name for x in c.structs}, "alias is a structure's name", al)

    def flags(self, c):
        q = {s.name: set() for s in c.structs}
        for s in c.structs:
            for x in s.searches:
                if x.type in ("list", "iterate"):
                    t = s
                    for n in x.distinct or ():
                        t = c.target(t, t.f(n))
                    q[t.name].add(x.type)

        def nulls(s):
            return any(f.type == "struct" and (s.f(f.src).null or nulls(c.target(s, f))) for f in s.fields)
        for s, o in zip(c.structs, self.j["sq"]):
            need(bool(o["queue"]) == ("list" in q[s.name]), "STRCT_HAS_QUEUE", s.name)
            need(bool(o["iterator"]) == ("iterate" in q[s.name]), "STRCT_HAS_ITERATOR", s.name)
            need(bool(o["nullrefs"]) == nulls(s), "STRCT_HAS_NULLREFS", s.name)
            for x, y in zip(s.searches, o["sq"]):
                eq = [(c.path_field(s, p)[1], len(p)) for p, op in x.terms if op == "eq"]
                names = {f.name for f, n in eq if n == 1}
                hit = any(n == 1 and (f.rowid or f.unique) for f, n in eq)
                hit = hit or any(set(u) <= names for u in s.uniques)
                deep = any(n > 1 and (f.rowid or f.unique) for f, n in eq)
                if not deep or hit:
                    need(bool(y["uniq"]) == hit, "SEARCH_IS_UNIQUE", (s.name, x))
                self.facts += 1


# ---------------------------------------------------------------- differences
TOP = {"ENM": "eq", "BITF": "bq", "STRCT": "sq"}
SUBS = {
    "BITF": ("MOD_BITF_COMMENT", "MOD_BITF_LABELS", "ADD_BITIDX", "DEL_BITIDX", "MOD_BITIDX"),
    "BITIDX": ("MOD_BITIDX_COMMENT", "MOD_BITIDX_LABELS", "MOD_BITIDX_VALUE"),
    "EITEM": ("MOD_EITEM_COMMENT", "MOD_EITEM_LABELS", "MOD_EITEM_VALUE"),
    "ENM": ("MOD_ENM_COMMENT", "MOD_ENM_LABELS", "ADD_EITEM", "DEL_EITEM", "MOD_EITEM"),
    "FIELD": tuple("MOD_FIELD_" + x for x in "ACTIONS BITF COMMENT DEF ENM FLAGS REFERENCE ROLEMAP TYPE VALIDS".split()),
    "INSERT": ("MOD_INSERT_PARAMS", "MOD_INSERT_ROLEMAP"),
    "ROLE": ("MOD_ROLE_CHILDREN", "MOD_ROLE_COMMENT", "MOD_ROLE_PARENT"),
    "ROLES": ("ADD_ROLE", "DEL_ROLE", "MOD_ROLE"),
    "SEARCH": tuple("MOD_SEARCH_" + x for x in "AGGR COMMENT DISTINCT GROUP LIMIT OFFSET ORDER PARAMS ROLEMAP".split()),
    "STRCT": ("ADD_FIELD", "ADD_INSERT", "ADD_SEARCH", "ADD_UNIQUE", "ADD_UPDATE", "DEL_FIELD", "DEL_INSERT", "DEL_SEARCH",
              "DEL_UNIQUE", "DEL_UPDATE", "MOD_FIELD", "MOD_INSERT", "MOD_SEARCH", "MOD_STRCT_COMMENT", "MOD_UPDATE"),
    "UPDATE": tuple("MOD_UPDATE_" + x for x in "COMMENT FLAGS PARAMS ROLEMAP".split()),
}
PARENT = {"BITIDX": "BITF", "EITEM": "ENM", "FIELD": "STRCT", "INSERT": "STRCT", "SEARCH": "STRCT", "UNIQUE": "STRCT",
          "UPDATE": "STRCT", "ROLE": "ROLES"}
DIFFKIND = {"eitem": "EITEM", "bitidx": "BITIDX", "enm": "ENM", "bitf": "BITF", "strct": "STRCT", "field": "FIELD",
            "search": "SEARCH", "update": "UPDATE", "unique": "UNIQUE", "insert": "INSERT", "role": "ROLE"}


def sig(m, o, kind):
    """Contents of an object of a configuration, by aspect."""
    def fn(i):
        f = m.o[i]
        return text(m.o[f["parent"]]["name"]), text(f["name"])

    def roles(i):
        return None if i == "-" else tuple(sorted(m.rolenames(i)))

    def labels(l):
        return tuple(sorted((text(m.j["langs"][x["lang"]]["lang"]), text(x["label"])) for x in l))

    def part(e):
        return None if e is None else (text(e["fname"]), e.get("op"))
    if kind in ("EITEM", "BITIDX"):
        return {"COMMENT": o["doc"], "LABELS": labels(o["labels"]), "VALUE": o["value"]}
    if kind == "ENM":
        return {"COMMENT": o["doc"], "LABELS": labels(o["labels_null"])}
    if kind == "BITF":
        return {"COMMENT": o["doc"], "LABELS": (labels(o["labels_null"]), labels(o["labels_unset"]))}
    if kind == "STRCT":
        return {"COMMENT": o["doc"]}
    if kind == "FIELD":
        d = o.get("def")
        if d is not None and o["type"] == "enum":
            d = text(m.o[d]["name"])
        r = o["ref"]
        return {"ACTIONS": (o["actdel"], o["actup"]), "COMMENT": o["doc"], "TYPE": o["type"], "VALIDS": tuple(map(tuple, o["fvq"])),
                "FLAGS": tuple(o[k] for k in ("rowid", "unique", "null", "noexport", "hasdef")),
                "ROLEMAP": roles(o["rolemap"]), "DEF": d,
                "ENM": text(m.o[o["enm"]]["name"]) if o["enm"] != "-" else None,
                "BITF": text(m.o[o["bitf"]]["name"]) if o["bitf"] != "-" else None,
                "REFERENCE": None if r is None else (fn(r["target"]), fn(r["source"]))}
    if kind == "INSERT":
        s = m.o[o["parent"]]
        return {"PARAMS": tuple(text(f["name"]) for f in s["fq"]), "ROLEMAP": roles(o["rolemap"])}
    if kind == "ROLE":
        return {"COMMENT": o["doc"], "PARENT": None if o["parent"] == "-" else text(m.o[o["parent"]]["name"]),
                "CHILDREN": tuple(sorted(text(m.o[i]["name"]) for i in o["subrq"]))}
    if kind == "SEARCH":
        d = o.get("dst")
        return {"AGGR": part(o.get("aggr")), "GROUP": part(o.get("group")), "COMMENT": o["doc"], "DISTINCT": d and text(d["fname"]),
                "LIMIT": o["limit"], "OFFSET": o["offset"], "ORDER": tuple(part(e) for e in o["ordq"]),
                "PARAMS": tuple(part(e) for e in o["sntq"]), "ROLEMAP": roles(o["rolemap"])}
    if kind == "UPDATE":
        return {"COMMENT": o["doc"], "FLAGS": o["all"], "ROLEMAP": roles(o["rolemap"]),
                "PARAMS": tuple(tuple((fn(r["field"]), r["mod"] if q == "mrq" and o["type"] == "update" else None,
                                       r["op"] if q == "crq" else None) for r in o[q]) for q in ("mrq", "crq"))}
    return {}


def check_diff(a, b, lines, same=False):
    """The queue of differences from a to b.  Returns number of entries."""
    ms = {"<": a, ">": b if not same else a}
    seen = {"<": {}, ">": {}}
    by = {}                      # (side, id) -> [(type, id on other side)]
    tops = set()
    n = 0

    def obj(i, kind, side, ty):
        need(i[:1] == side, "%s: object of wrong configuration" % ty, i)
        m = ms[side]
        need(i[1:] in m.o and DIFFKIND[m.kind[i[1:]]] == kind, "%s: no %s" % (ty, kind), i)
        return m.o[i[1:]]

    # unnamed operations that can't be told from others of the same structure
    twin, bysig = {"<": set(), ">": set()}, {}
    for side, m in ms.items():
        for i, k in m.kind.items():
            o = m.o[i]
            if k in ("search", "update") and o["name"] is None:
                s = (m.o[o["parent"]]["name"], o["type"], repr(sorted(sig(m, o, DIFFKIND[k]).items())))
                bysig.setdefault(s, {"<": [], ">": []})[side].append(i)
    for v in bysig.values():
        if max(map(len, v.values())) > 1:
            for side in v:
                twin[side] |= set(v[side])

    def once(i, ty):
        s = seen[i[0]]
        if i[1:] in twin[i[0]]:
            s[i] = ty
            return
        need(i not in s, "%s of object already listed" % ty, (i, s.get(i)))
        s[i] = ty

    def ident(m, o, kind):
        """What pairs objects."""
        nm = text(o["name"]) if kind not in ("INSERT", "UNIQUE") else None
        if kind == "STRCT" or kind in ("ENM", "BITF", "ROLE"):
            return nm
        up = text(m.o[o["parent"]]["name"])
        if kind in ("SEARCH", "UPDATE"):
            return up, o["type"], nm
        return up, nm

    sub, whole = {}, {}
    prev = None
    for l in lines:
        ty, f, t = l.split(" ")
        ty = ty.upper()
        n += 1
        if same:
            # a configuration with itself: the second set of names is the same
            t = ">" + t[1:] if t != "-" else t
        act, rest = ty.split("_", 1)
        kind, _, asp = rest.partition("_")
        tops.add(ty)
        if kind == "ROLES":
            need((f, t) == ("-", "-"), "arguments of " + ty, l)
            need(ty not in whole, ty + " twice", l)
            whole[ty] = n
            continue
        if act == "ADD":
            need(t == "-", "arguments of " + ty, l)
            f = ">" + f[1:] if same else f
            if kind == "INSERT":
                need(f[:1] == ">" and f[1:] in b.o and b.kind[f[1:]] == "strct", "ADD_INSERT: no structure", l)
                f += ".i"
            obj(f, kind, ">", ty)
            once(f, ty)
        elif act == "DEL":
            need(t == "-", "arguments of " + ty, l)
            if kind == "INSERT":
                need(f[:1] == "<" and f[1:] in a.o and a.kind[f[1:]] == "strct", "DEL_INSERT: no structure", l)
                f += ".i"
            obj(f, kind, "<", ty)
            once(f, ty)
        else:
            if kind == "INSERT":
                for m, i in ((a, f), (ms[">"], t)):
                    need(i[1:] in m.o and m.kind[i[1:]] == "strct", ty + ": no structure", l)
                f, t = f + ".i", t + ".i"
            x, y = obj(f, kind, "<", ty), obj(t, kind, ">", ty)
            need(ident(a, x, kind) == ident(ms[">"], y, kind), "%s of different objects" % ty, l)
            if asp:
                need(act == "MOD", "type", l)
                s = sub.setdefault((kind, f, t), [])
                need(asp not in s or ty == "MOD_UPDATE_PARAMS", ty + " twice", l)
                s.append(asp)
            else:
                once(f, ty)
                once(t, ty)
                by[(kind, f, t)] = (act, x, y)
    # aspects of changed objects
    for k in sub:
        need(k in by and by[k][0] == "MOD", "MOD_%s_%s of unchanged object" % (k[0], sub[k][0]), k)
    kids = {}
    for side in "<>":
        for i, ty in seen[side].items():
            kind = ty.split("_")[1]
            up = PARENT.get(kind)
            if up == "ROLES":
                kids.setdefault("ROLES", set()).add(ty)
            elif up:
                kids.setdefault(side + i[1:].split(".")[0], set()).add(ty)
    for (kind, f, t), (act, x, y) in by.items():
        p, q = sig(a, x, kind), sig(ms[">"], y, kind)
        got = set(sub.get((kind, f, t), ()))
        for k in p:
            want = p[k] != q[k]
            if kind == "FIELD" and k in ("ENM", "BITF"):
                want = want and None not in (p[k], q[k])
            if kind == "FIELD" and k == "DEF":
                want = want and None not in (p[k], q[k]) and x["type"] == y["type"]
                if x["type"] == y["type"] == "enum" and x["enm"] != y["enm"] and k not in got:
                    continue
            if kind == "FIELD" and k == "VALIDS" and want and sorted(p[k]) == sorted(q[k]):
                continue
            if kind == "FIELD" and k == "VALIDS" and want and x["type"] != y["type"]:
                continue                    # compared only where alike
            if kind == "INSERT" and k == "PARAMS" and want and sorted(p[k]) == sorted(q[k]):
                continue
            if kind == "UPDATE" and k == "PARAMS" and x["all"] and y["all"]:
                continue
            need(want == (k in got), "%s%s_%s" % ("" if k in got else "no ", "MOD_" + kind, k), (f, t, p[k], q[k]))
        need(got <= set(p), "aspects of " + kind, (got, f, t))
        ch = got or any(ty in SUBS[kind] for ty in kids.get(f, set()) | kids.get(t, set()))
        need(bool(ch) == (act == "MOD"), "%s_%s although %s" % (act, kind, "changed" if ch else "not changed"), (f, t))
        if kind in ("SEARCH", "UPDATE") and x["name"] is None:
            need(act == "SAME", "MOD_%s of unnamed" % kind, (f, t))
    # everything exactly once
    gone = {"<": set(), ">": set()}
    for side, ty in (("<", "DEL"), (">", "ADD")):
        for i, v in seen[side].items():
            if v in tuple(ty + "_" + k for k in TOP):
                gone[side].add(i[1:])
    for side in "<>":
        m = ms[side]
        for i, k in m.kind.items():
            if k in ("alias", "rolemap"):
                continue
            kind = DIFFKIND[k]
            if kind == "ROLE" and (m.o[i]["parent"] == "-" or not (a.j["arq"] and b.j["arq"])):
                continue
            up = i.split(".")[0]
            listed = side + i in seen[side]
            if i in twin[side]:
                continue
            if up != i and up in gone[side]:
                need(not listed, "%s listed in %s structure" % (kind, "added" if side == ">" else "removed"), i)
            elif kind == "UNIQUE":
                own = tuple(text(m.o[r["field"]]["name"]) for r in m.o[i]["nq"])
                w = ms["<>".replace(side, "")]
                o = [s for s in w.j["sq"] if s["name"] == m.o[up]["name"]]
                there = any(tuple(text(w.o[r["field"]]["name"]) for r in u["nq"]) == own for s in o for u in s["nq"])
                need(listed == (not there), "unique %s" % ("listed although in both" if listed else "not listed"), own)
            else:
                need(listed, "%s not listed" % kind, side + i)
    for side in "<>":
        for i, v in seen[side].items():
            kind = v.split("_")[1]
            if v.split("_")[0] in ("ADD", "DEL") and kind not in ("UNIQUE", "UPDATE", "SEARCH"):
                m, w = ms[side], ms["<>".replace(side, "")]
                idn = ident(m, m.o[i[1:]], kind)
                need(not any(DIFFKIND.get(w.kind[z]) == kind and ident(w, w.o[z], kind) == idn for z in w.o), v + " of object in both", i)
    ra, rb = bool(a.j["arq"]), bool(b.j["arq"])
    ch = any(t in kids.get("ROLES", ()) for t in SUBS["ROLES"])
    want = {(0, 0): None, (0, 1): "ADD_ROLES", (1, 0): "DEL_ROLES", (1, 1): "MOD_ROLES" if ch else "SAME_ROLES"}[(ra, rb)]
    need(list(whole) == ([want] if want else []), "roles", (list(whole), want))
    if same:
        need(all(t.startswith("SAME_") for t in tops), "differences from itself", [t for t in tops if t[:4] != "SAME"])
    return n
