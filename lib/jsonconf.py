"""Read the output of ort-json(1), as described by ort-json.ts, into cfg.Config,
checking as it goes along that redundant parts agree with each other."""
import json
from cfg import *


class Bad(Exception):
    def __init__(self, key, what=""):
        Exception.__init__(self, key)
        self.key, self.what = key, what


def load(text):
    def pairs(l):
        d = {}
        for k, v in l:
            if k in d:
                raise Bad("repeated key", k)
            d[k] = v
        return d

    def const(x):
        raise Bad("not JSON", x)
    try:
        j = json.loads(text, object_pairs_hook=pairs, parse_constant=const)
    except ValueError as e:
        raise Bad("not JSON", str(e))
    if set(j) != {"config"}:
        raise Bad("top-level", str(list(j)))
    return j["config"]


def need(c, key, what=""):
    if not c:
        raise Bad(key, str(what))


def keys(d, key, *ks):
    need(isinstance(d, dict), key + " isn't an object", d)
    for k in ks:
        need(k in d, "%s lacks %s" % (key, k), d)


class Reader:
    def __init__(self, j, fnames):
        self.j, self.fnames = j, fnames
        self.pos = []                       # (kind, names, fname, line, column)

    def at(self, o, kind, *names):
        keys(o, kind, "pos")
        p = o["pos"]
        keys(p, "pos", "fname", "line", "column")
        need(p["fname"] in self.fnames, "file of " + kind, p)
        need(isinstance(p["line"], int) and isinstance(p["column"], int), "pos", p)
        self.pos.append((kind, names, p["fname"], p["line"], p["column"]))

    def doc(self, o):
        d = o["doc"]
        need(d is None or isinstance(d, str), "doc", d)
        return d

    def labels(self, d, kind):
        out = {}
        for k, v in d.items():
            self.at(v, "label")
            keys(v, "label", "lang", "value")
            need(v["lang"] == k, "language of label", v)
            out["" if k == "_default" else k] = v["value"]
        return out

    def num(self, v, key):
        need(isinstance(v, str), key + " isn't a string", v)
        return int(v)

    def config(self):
        j = self.j
        keys(j, "config", "eq", "bq", "rq", "sq")
        c = Config()
        for n, e in j["eq"].items():
            keys(e, "enum", "name", "doc", "labelsNull", "eq")
            need(e["name"] == n, "name of enum", n)
            self.at(e, "enum", n)
            x = Enum(n, [], self.doc(e), self.labels(e["labelsNull"], "enum"))
            for m, i in e["eq"].items():
                keys(i, "enum item", "name", "parent", "doc", "value", "labels")
                need((i["name"], i["parent"]) == (m, n), "name of enum item", i)
                self.at(i, "item", n, m)
                x.items.append(Item(m, None if i["value"] is None else self.num(i["value"], "value"), self.doc(i),
                                    self.labels(i["labels"], "item")))
            c.enums.append(x)
        for n, e in j["bq"].items():
            keys(e, "bitfield", "name", "doc", "labelsNull", "labelsUnset", "bq")
            need(e["name"] == n, "name of bitfield", n)
            self.at(e, "bits", n)
            x = Bitf(n, [], self.doc(e), self.labels(e["labelsUnset"], "bits"), self.labels(e["labelsNull"], "bits"))
            for m, i in e["bq"].items():
                keys(i, "bit", "name", "parent", "doc", "value", "labels", "mask")
                need((i["name"], i["parent"]) == (m, n), "name of bit", i)
                self.at(i, "item", n, m)
                v = self.num(i["value"], "value")
                need(self.num(i["mask"], "mask") == 1 << v, "mask of bit", i)
                x.items.append(Item(m, v, self.doc(i), self.labels(i["labels"], "item")))
            c.bitfs.append(x)
        if j["rq"] is not None:
            self.roles(c, j["rq"])
        for n, s in j["sq"].items():
            c.structs.append(self.struct(n, s))
        for s in c.structs:
            self.resolve(c, s, j["sq"][s.name])
        return c

    def roles(self, c, rq):
        seen = []
        for n in ("all", "default", "none"):
            need(n in rq, "lacks role", n)

        def role(n, parent):
            need(n in rq, "unknown subordinate role", n)
            o = rq[n]
            keys(o, "role", "name", "parent", "doc", "subrq")
            need(o["name"] == n and o["parent"] == parent, "name or parent of role", o)
            self.at(o, "role", n)
            need(n not in seen, "role twice", n)
            seen.append(n)
            return Role(n, self.doc(o), [role(m, n) for m in o["subrq"]])
        c.roles = role("all", None).subs
        for n in ("default", "none"):
            need(not role(n, None).subs, "subordinates of " + n)
        need(len(seen) == len(rq), "orphaned roles", (seen, list(rq)))

    def field(self, s, n, f):
        keys(f, "field", "name", "parent", "doc", "type", "actup", "actdel", "flags", "rolemap", "def", "fvq")
        need((f["name"], f["parent"]) == (n, s.name), "name of field", f)
        self.at(f, "field", s.name, n)
        x = Field(n, {"bitfield": "bits"}.get(f["type"], f["type"]), doc=self.doc(f), actdel=f["actdel"], actup=f["actup"])
        for k in f["flags"]:
            need(k in ("rowid", "null", "unique", "noexport"), "field flag", k)
            need(not getattr(x, k), "field flag twice", k)
            setattr(x, k, True)
        need(("enm" in f) == (x.type == "enum"), "enum of field", f)
        need(("bitf" in f) == (x.type == "bits"), "bits of field", f)
        x.tname = f.get("enm", f.get("bitf"))
        if "ref" in f:
            t, q = f["ref"]["target"], f["ref"]["source"]
            need(q["strct"] == s.name, "source of reference", f)
            if x.type == "struct":
                x.src = q["field"]
                x.via = (t["strct"], t["field"])
            else:
                need(q["field"] == n, "source of reference", f)
                x.ref = (t["strct"], t["field"])
        else:
            need(x.type != "struct", "struct lacks reference", f)
        conv = float if x.type == "real" else int
        if f["def"] is not None:
            need(isinstance(f["def"], str), "default isn't a string", f)
            x.default = f["def"] if x.type in ("text", "email", "enum") else conv(f["def"])
        for v in f["fvq"]:
            x.limits.append((v["type"], conv(v["limit"])))
        return x

    def path(self, s, o, kind):
        """Dotted name, having checked its resolved chain afterwards."""
        keys(o, kind, "fname", "chain")
        self.at(o, kind)
        p = () if o["fname"] == "." else tuple(o["fname"].split("."))
        self.chains.append((s, p, o, kind))
        return p

    def update(self, s, u, name, kind):
        keys(u, kind, "name", "parent", "doc", "type", "rolemap", "flags", "mrq", "crq")
        need(u["name"] == name and u["parent"] == s.name and u["type"] == kind, "identity of " + kind, u)
        self.at(u, kind)
        for q in u["mrq"] + u["crq"]:
            keys(q, "reference", "field", "op", "mod")
            self.at(q, "reference")
        need(u["flags"] in ([], ["all"]), "flags", u)
        mods = [(q["field"], q["mod"]) for q in u["mrq"]]
        x = Update(mods, [(q["field"], q["op"]) for q in u["crq"]], name, self.doc(u))
        x.all, x.rm = bool(u["flags"]), u["rolemap"]
        if x.all:
            need(all(m == "set" for _, m in mods), "modifiers of all", u)
            x.allmods, x.mods = [f for f, _ in mods], []
        elif kind == "update":
            need(mods, "update without fields", u)
        else:
            need(not mods, "delete with modifiers", u)
        return x

    def search(self, s, q, name):
        keys(q, "query", "name", "parent", "doc", "type", "rolemap", "limit", "offset", "sntq", "ordq", "aggr", "group", "dst")
        need(q["name"] == name and q["parent"] == s.name, "identity of query", q)
        self.at(q, "query")
        x = Search(q["type"], [], name, self.doc(q), limit=self.num(q["limit"], "limit"), offset=self.num(q["offset"], "offset"))
        x.rm = q["rolemap"]
        for t in q["sntq"]:
            keys(t, "term", "op", "uname", "field")
            p = self.path(s, t, "term")
            need(t["uname"] == "_".join(p), "uname", t)
            x.terms.append((p, t["op"]))
        x.order = [(self.path(s, t, "order"), t["op"]) for t in q["ordq"]]
        need((q["aggr"] is None) == (q["group"] is None), "group without aggregate", q)
        if q["aggr"] is not None:
            x.group = (self.path(s, q["group"], "group"), q["aggr"]["op"], self.path(s, q["aggr"], "aggregate"))
        if q["dst"] is not None:
            keys(q["dst"], "distinct", "strct")
            x.distinct = self.path(s, q["dst"], "distinct")
        return x

    def struct(self, n, o):
        keys(o, "struct", "name", "doc", "fq", "insert", "sq", "uq", "dq", "nq", "rq")
        need(o["name"] == n, "name of struct", n)
        s = Struct(n, doc=self.doc(o))
        self.at(o, "struct", n)
        self.chains = getattr(self, "chains", [])
        s.fields = [self.field(s, k, f) for k, f in o["fq"].items()]
        for k in ("sq", "uq", "dq"):
            keys(o[k], k, "named", "anon")
            l = [(None, q) for q in o[k]["anon"]] + list(o[k]["named"].items())
            if k == "sq":
                s.searches = [self.search(s, q, m) for m, q in l]
            elif k == "uq":
                s.updates = [self.update(s, q, m, "update") for m, q in l]
            else:
                s.deletes = [self.update(s, q, m, "delete") for m, q in l]
        if o["insert"] is not None:
            s.insert = True
            self.at(o["insert"], "insert")
        for u in o["nq"]:
            self.at(u, "unique")
            s.uniques.append(tuple(u["nq"]))
        for m in o["rq"]:
            keys(m, "roles", "type", "rq", "name")
            need(len(set(m["rq"])) == len(m["rq"]), "roles repeated", m)
            s.roles.append((tuple(m["rq"]), [(m["type"], m["name"])]))
        return s

    def resolve(self, c, s, o):
        """Check resolved parts of a structure against the whole."""
        for f in s.fields:
            if f.type == "struct":
                need(s.f(f.src) is not None and s.f(f.src).ref == f.via, "reference of struct", f)
        nx = c.noexport_roles(s)
        for f in s.fields:
            rm = o["fq"][f.name]["rolemap"]
            need(len(set(rm)) == len(rm) and set(rm) == nx[f.name], "rolemap of field", (f.name, rm, nx[f.name]))
        ro = c.op_roles(s)
        for (k, i), rs in ro.items():
            rm = {"query": s.searches, "update": s.updates, "delete": s.deletes}[k][i].rm if k != "insert" else o["insert"]["rolemap"]
            need(len(set(rm)) == len(rm) and set(rm) == rs, "rolemap of " + k, (i, rm, rs))
        for u in s.updates:
            if u.all:
                w = [f.name for f in s.fields if not f.rowid and f.type != "struct"]
                need(sorted(w) == sorted(u.allmods), "fields of update all", (w, u.allmods))
        for t, p, x, kind in self.chains:
            if t is not s:
                continue
            ch, at = [], s
            for i, n in enumerate(p):
                f = at.f(n)
                need(f is not None, "unknown field in " + kind, p)
                ch.append("%s.%s" % (at.name, n))
                if i + 1 < len(p) or kind == "distinct":
                    at = c.target(at, f)
            need(ch == x["chain"], "chain of " + kind, x)
            if kind == "term":
                need(x["field"] == {"strct": at.name, "field": p[-1]}, "field of term", x)
            if kind == "distinct":
                need(x["strct"] == at.name, "struct of distinct", x)
