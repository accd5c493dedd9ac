"""What ort-json.ts documents of filling in pages: a page is [tag, attributes,
children] as in js/dom.js, and a configuration is what ort-json(1) produces.

A scope maps classes to effects: ("text", s), ("attr", name, s), ("hide", bool)
or ("list", scope, items, ordered), with items of (classes, callback).  ANY
stands for what isn't specified."""


class Any:
    def __repr__(self):
        return "ANY"


ANY = Any()
TYPES = ("bit", "date", "epoch", "int", "real", "blob", "text", "password", "email", "struct", "enum", "bitfield")
ACTIONS = ("none", "restrict", "nullify", "default", "cascade")
FLAGS = ("rowid", "null", "unique", "noexport")
LIMITS = dict({"real": "real", "enum": "enum", "email": "string", "text": "string", "password": "string", "blob": "string"},
              **{t: "number" for t in ("bit", "bitfield", "date", "epoch", "int")})


def text(s):
    return ("text", s)


def attr(n, s):
    return ("attr", n, s)


def hide(c):
    return ("hide", c)


def has(d, cls, c):
    d[cls + "-has"] = hide(not c)
    d[cls + "-none"] = hide(bool(c))


class Page:
    def __init__(self, cfg, prefixes=None, cb=None, kinds=()):
        self.c, self.kinds = cfg, kinds
        self.p = prefixes or {"strcts": "", "roles": "", "enums": "", "bitfs": ""}
        self.cb = cb                    # argument of callbacks, None for no callbacks

    def item(self, kind, o, env):
        if self.cb is None or kind not in self.kinds:
            return env, None
        return env, "|".join((kind, o.get("parent") or "-", o.get("name") or "-", self.cb))

    def lst(self, scope, items, ordered=True):
        return ("list", scope, items, ordered)

    def comment(self, d, kind, doc):
        c = "config-%s-doc" % kind
        doc = doc or ""
        has(d, c, doc)
        d[c] = text(doc)
        d[c + "-value"] = attr("value", doc)

    def at(self, d, cls, where):
        d[cls + "-id"] = attr("id", where)
        d[cls + "-link"] = attr("href", "#" + where)

    def role_at(self, n):
        return "#%sroles/%s" % (self.p["roles"], n)

    # Whole pages and sets.

    def top(self):
        d = {}
        for k in ("strcts", "roles", "enums", "bitfs"):
            self.at(d, "config-%s-prefix" % k, self.p[k])
        for x in (self.roles(), self.strcts(), self.enums(), self.bitfs()):
            d.update(x)
        return d

    def set(self, kind, items, scope, ordered=True):
        d = {}
        self.at(d, "config-%s-name" % kind, self.p[kind] + kind)
        has(d, "config-" + kind, items)
        d["config-" + kind] = self.lst(scope, items, ordered)
        return d

    def strcts(self):
        return self.set("strcts", [self.item("strct", s, self.strct(s)) for _, s in sorted(self.c["sq"].items())], "strct")

    def enums(self):
        return self.set("enums", [self.item("enm", s, self.enum(s)) for _, s in sorted(self.c["eq"].items())], "enum")

    def bitfs(self):
        return self.set("bitfs", [self.item("bitf", s, self.bitf(s)) for _, s in sorted(self.c["bq"].items())], "bitf")

    def roles(self, exclude=()):
        rq = self.c["rq"] or {}
        return self.set("roles", [self.item("role", s, self.role(s)) for n, s in sorted(rq.items()) if n not in exclude], "role", False)

    # Roles.

    def role(self, o):
        d = {"config-role-name": text(o["name"]), "config-role-name-value": attr("value", o["name"]),
             "config-role-name-data": attr("data-name", o["name"])}
        self.comment(d, "role", o["doc"])
        self.at(d, "config-role-name", "%sroles/%s" % (self.p["roles"], o["name"]))
        has(d, "config-role-parent", o["parent"])
        d["config-role-parent"] = text(o["parent"] or "")
        d["config-role-parent-link"] = attr("href", self.role_at(o["parent"]) if o["parent"] else ANY)
        has(d, "config-role-subrq", o["subrq"])
        d["config-role-subrq-join"] = text(", ".join(o["subrq"]))
        d["config-role-subrq"] = self.lst("subrole", [({"config-role-subrq-role-name": text(n),
                                                        "config-role-subrq-role-link": attr("href", self.role_at(n))}, None) for n in o["subrq"]])
        return d

    def rolemap(self, d, name, l):
        c = "config-%s-rolemap" % name
        l = l or []
        has(d, c, l)
        d[c + "-join"] = text(", ".join(l))
        d[c] = self.lst(name + " role", [({c + "-role": text(n), c + "-role-value": attr("value", n), c + "-role-link": attr("href", self.role_at(n))}, None) for n in l])

    # Enumerations and bit-fields.

    def labels(self, d, name, ls):
        c = "config-%s-labels" % name
        has(d, c, ls)
        d[c] = self.lst("label", [({"config-label-lang": text(l["lang"]), "config-label-value": text(l["value"])}, None) for _, l in sorted(ls.items())])

    def enum(self, o):
        d = {"config-enum-name": text(o["name"]), "config-enum-name-value": attr("value", o["name"]),
             "config-enum-name-data": attr("data-name", o["name"])}
        at = "%senums/%s" % (self.p["enums"], o["name"])
        self.comment(d, "enum", o["doc"])
        self.at(d, "config-enum-name", at)
        self.at(d, "config-eitems-name", at + "/eitems")
        has(d, "config-eitems", o["eq"])
        d["config-eitems"] = self.lst("enumitem", [self.item("eitem", i, self.enumitem(i)) for _, i in sorted(o["eq"].items())])
        self.labels(d, "enum-null", o["labelsNull"])
        return d

    def enumitem(self, o):
        v = "" if o["value"] is None else str(o["value"])
        d = {"config-enumitem-name": text(o["name"]), "config-enumitem-name-value": attr("value", o["name"]),
             "config-enumitem-value": text(v), "config-enumitem-value-value": attr("value", v)}
        self.comment(d, "enumitem", o["doc"])
        self.at(d, "config-enumitem-name", "%senums/%s/eitems/%s" % (self.p["enums"], o["parent"], o["name"]))
        has(d, "config-enumitem-value", v != "")
        self.labels(d, "enumitem", o["labels"])
        return d

    def bitf(self, o):
        d = {"config-bitf-name": text(o["name"]), "config-bitf-name-value": attr("value", o["name"]),
             "config-bitf-name-data": attr("data-name", o["name"])}
        at = "%sbitfs/%s" % (self.p["bitfs"], o["name"])
        self.comment(d, "bitf", o["doc"])
        self.at(d, "config-bitf-name", at)
        self.at(d, "config-bitems-name", at + "/bitems")
        has(d, "config-bitems", o["bq"])
        d["config-bitems"] = self.lst("bitindex", [self.item("bitindex", i, self.bitindex(i)) for _, i in sorted(o["bq"].items())])
        self.labels(d, "bitf-null", o["labelsNull"])
        self.labels(d, "bitf-unset", o["labelsUnset"])
        return d

    def bitindex(self, o):
        d = {"config-bitindex-name": text(o["name"]), "config-bitindex-name-value": attr("value", o["name"]),
             "config-bitindex-value": text(str(o["value"])), "config-bitindex-value-value": attr("value", str(o["value"])),
             "config-bitindex-mask": text(str(o["mask"]))}
        self.comment(d, "bitindex", o["doc"])
        self.at(d, "config-bitindex-name", "%sbitfs/%s/bitems/%s" % (self.p["bitfs"], o["parent"], o["name"]))
        self.labels(d, "bitindex", o["labels"])
        return d

    # Structures.

    def in_strct(self, s, *w):
        return "/".join((self.p["strcts"] + "strcts", s) + w)

    def strct(self, o):
        d = {"config-strct-name": text(o["name"]), "config-strct-name-value": attr("value", o["name"]),
             "config-strct-name-data": attr("data-name", o["name"])}
        self.comment(d, "strct", o["doc"])
        self.at(d, "config-strct-name", self.in_strct(o["name"]))
        d.update(self.fields(o))
        has(d, "config-insert", o["insert"])
        self.rolemap(d, "insert", o["insert"] and o["insert"]["rolemap"])
        has(d, "config-uniques", o["nq"])
        d["config-uniques"] = self.lst("unique", [({"config-unique": text(", ".join(u["nq"]))}, None) for u in o["nq"]])
        for kind, q in (("updates", o["uq"]), ("deletes", o["dq"])):
            self.at(d, "config-%s-name" % kind, self.in_strct(o["name"], kind))
            l = [self.item("update", u, self.update(u, kind, i)) for i, u in ops(q)]
            has(d, "config-" + kind, l)
            d["config-" + kind] = self.lst("update", l)
        self.at(d, "config-queries-name", self.in_strct(o["name"], "queries"))
        l = [self.item("query", u, self.query(u, i)) for i, u in ops(o["sq"])]
        has(d, "config-queries", l)
        d["config-queries"] = self.lst("query", l)
        return d

    def fields(self, o, exclude=()):
        d = {}
        self.at(d, "config-fields-name", self.in_strct(o["name"], "fields"))
        l = [self.item("field", f, self.field(f)) for n, f in sorted(o["fq"].items()) if n not in exclude]
        has(d, "config-fields", l)
        d["config-fields"] = self.lst("field", l)
        return d

    def update(self, o, kind, pos):
        n = o["name"] or ""
        d = {"config-update-name": text(n), "config-update-name-value": attr("value", n)}
        has(d, "config-update-name", n)
        self.comment(d, "update", o["doc"])
        self.at(d, "config-update-name", self.in_strct(o["parent"], kind, n or "_up%d" % pos))
        has(d, "config-update-fields", o["mrq"] + o["crq"])
        for k in ("mrq", "crq"):
            has(d, "config-update-" + k, o[k])
            d["config-update-" + k] = self.lst("uref", [(self.refs("uref", u, "field", "op", "mod"), None) for u in o[k]])
        self.rolemap(d, "update", o["rolemap"])
        return d

    def refs(self, kind, o, *ks):
        d = {}
        for k in ks:
            d["config-%s-%s" % (kind, k)] = text(o[k])
            d["config-%s-%s-value" % (kind, k)] = attr("value", o[k])
        return d

    def query(self, o, pos):
        n = o["name"] or ""
        d = {"config-query-name": text(n), "config-query-name-value": attr("value", n), "config-query-type": text(o["type"])}
        has(d, "config-query-name", n)
        self.comment(d, "query", o["doc"])
        self.at(d, "config-query-name", self.in_strct(o["parent"], "queries", n or "_q%d" % pos))
        for k, kind in (("sntq", "sent"), ("ordq", "ord")):
            has(d, "config-query-" + k, o[k])
            d["config-query-" + k] = self.lst(kind, [(self.refs(kind, x, "fname", "op"), None) for x in o[k]])
        aggr = o["aggr"] is not None and o["group"] is not None
        has(d, "config-query-aggr", aggr)
        d["config-query-aggr-op"] = text(o["aggr"]["op"] if aggr else ANY)
        d["config-query-aggr-fname"] = text(o["aggr"]["fname"] if aggr else ANY)
        d["config-query-group-fname"] = text(o["group"]["fname"] if aggr else ANY)
        has(d, "config-query-dst", o["dst"] is not None)
        d["config-query-dst-fname"] = text(o["dst"]["fname"] if o["dst"] is not None else ANY)
        for k in ("limit", "offset"):
            v = str(o[k])
            has(d, "config-query-" + k, v != "0")
            d["config-query-" + k] = text(v)
            d["config-query-%s-value" % k] = attr("value", v)
        has(d, "config-query-limoffs", str(o["limit"]) != "0" or str(o["offset"]) != "0")
        self.rolemap(d, "query", o["rolemap"])
        return d

    def field(self, o):
        n = o["name"]
        d = {"config-field-name": text(n), "config-field-name-value": attr("value", n), "config-field-name-data": attr("data-name", n),
             "config-field-fullname-data": attr("data-fullname", o["parent"] + "." + n)}
        self.comment(d, "field", o["doc"])
        self.at(d, "config-field-name", self.in_strct(o["parent"], "fields", n))
        for t in TYPES:
            d["config-field-type-" + t] = hide(o["type"] != t)
        d["config-field-type"] = text(o["type"])
        d["config-field-store-type"] = hide(o["type"] == "struct")
        ref = o.get("ref")
        has(d, "config-field-ref", ref)
        has(d, "config-field-fkey", ref and o["type"] != "struct")
        for k in ("target", "source"):
            c = "config-field-ref-%s-" % k
            d[c + "strct"] = text(ref[k]["strct"] if ref else ANY)
            d[c + "field"] = text(ref[k]["field"] if ref else ANY)
            d[c + "strct-link"] = attr("href", "#" + self.in_strct(ref[k]["strct"]) if ref else ANY)
            d[c + "field-link"] = attr("href", "#" + self.in_strct(ref[k]["strct"], "fields", ref[k]["field"]) if ref else ANY)
        for k, w in (("bitf", "bitfs"), ("enm", "enums")):
            v = o.get(k)
            has(d, "config-field-" + k, v)
            d["config-field-" + k] = text(v or "")
            d["config-field-%s-link" % k] = attr("href", "#%s%s/%s" % (self.p[w], w, v) if v else ANY)
        for k in ("actdel", "actup"):
            d["config-field-" + k] = text(o[k])
            for a in ACTIONS:
                d["config-field-%s-%s" % (k, a)] = hide(o[k] != a)
        self.rolemap(d, "field", o["rolemap"])
        df = o["def"]
        has(d, "config-field-def", df is not None)
        d["config-field-def"] = text(ANY if df is None else str(df))
        d["config-field-def-value"] = attr("value", ANY if df is None else str(df))
        l = o["fvq"]
        has(d, "config-field-limits", l)
        for t in ("number", "real", "string", "enum"):
            d["config-field-limit-" + t] = hide(LIMITS.get(o["type"]) != t if l else ANY)
        d["config-field-limit"] = text(", ".join("%s %s" % (x["type"], x["limit"]) for x in l) if l else ANY)
        for f in FLAGS:
            d["config-field-flag-%s-set" % f] = attr("checked", "checked" if f in o["flags"] else None)
        has(d, "config-field-flags", o["flags"])
        d["config-field-flags-join"] = text(",".join(o["flags"]))
        return d


def ops(q):
    return [(0, v) for _, v in sorted(q["named"].items())] + list(enumerate(q["anon"]))


# Templates.

# Everything at once: what classes there are in which scope.
FULL = """roles { role r comment "x" { role q; }; };
enum e { item a 1 jslabel "A"; isnull jslabel "n"; };
bitfield bf { item x 3 jslabel "c"; isnull jslabel "n"; isunset jslabel "u"; };
struct a { field id int rowid; field n text limit gt 3; field p:b.id int null; field q struct p; unique n, p;
search n: name s order n limit 5,2; update n: id; update n: n: name u; delete n; insert; roles q { insert; search s; update u; noexport n; }; };
struct b { field id int rowid; };
"""


def catalog(full):
    """Scopes and their classes: scope -> class -> kind."""
    cat = {}

    def visit(scope, env):
        m = cat.setdefault(scope, {})
        for k, e in env.items():
            m[k] = e[0] if e[0] != "attr" else "attr " + e[1]
            if e[0] == "list":
                m[k] = "list " + e[1]
                for x, _ in e[2]:
                    visit(e[1], x)
    visit("top", Page(full).top())
    return cat


class Maker:
    TEXT = ("div", "span", "p", "li", "td", "a", "strong", "h2")

    def __init__(self, r, cat, page=False):
        self.r, self.cat = r, cat
        self.reach = r.choice((.35, .6, .85))
        self.outer = False              # whether inner parts have lists of outer parts

    def pick(self, stack, kinds):
        """A class: mostly of the scope, some of those around, some of others."""
        r, x = self.r, self.r.random()
        sc = stack[-1] if x < .8 else r.choice(stack) if x < .95 else r.choice(sorted(self.cat))
        l = [c for c, k in sorted(self.cat[sc].items()) if k.split()[0] in kinds]
        return r.choice(l) if l else None

    def element(self, stack, active, toggles=True, leaf=False, lst=None):
        r = self.r
        cls, attrs, names = [], {}, set()
        if r.random() < .2:
            cls.append(r.choice(("note", "config", "hidden", "x-y")))
        tog = toggles and lst is None and r.random() < .45
        if tog:
            c = self.pick(stack, ("hide",))
            cls += [c] if c else []
        if lst is not None:
            cls.append(lst)
        for _ in range(r.choice((0, 0, 1, 1, 2, 3))):
            c = self.pick(stack, ("attr",))
            if c is None:
                continue
            k = {self.cat[s][c] for s in self.cat if c in self.cat[s]}.pop().split()[1]
            if k not in names:
                names.add(k)
                cls.append(c)
                if r.random() < .3:
                    attrs[k] = r.choice(("old", "", "checked"))
        if leaf and r.random() < .8:
            c = self.pick(stack, ("text",))
            cls += [c] if c else []
        if (tog or lst is not None or not toggles) and r.random() < .5:
            cls.append("hide")
        if r.random() < .1:
            attrs["title"] = "keep"
        r.shuffle(cls)
        if cls or r.random() < .3:
            attrs["class"] = r.choice((" ", " ", "  ", "\n")).join(cls)
        return [r.choice(self.TEXT), attrs, []]

    def leaf(self, stack, active):
        e = self.element(stack, active, leaf=True)
        if self.r.random() < .6:
            e[2].append(self.r.choice(("old text", "x", " ")))
        elif self.r.random() < .2:
            e[0] = "input"
        return e

    def container(self, cls, scope, stack, active, depth):
        r = self.r
        e = self.element(stack, active, lst=cls)
        if r.random() < .08:
            if r.random() < .5:
                e[2].append("nothing to fill")
            return e
        if r.random() < .3:
            e[2].append("\n  ")
        e[2].append(self.tree(stack + [scope], active | {cls, scope}, depth + 1))
        for _ in range(r.choice((0, 0, 0, 1, 2))):
            e[2].append(self.leaf(stack, active) if r.random() < .7 else "more")
        return e

    def tree(self, stack, active, depth=0, root=False):
        """An element with parts for the innermost scope."""
        r = self.r
        own = self.cat[stack[-1]]
        ls = [(c, k.split(" ", 1)[1]) for c, k in sorted(own.items()) if k.startswith("list") and not {c, k.split(" ", 1)[1]} & active]
        if not root and ls and r.random() < .1:
            return self.container(*r.choice(ls), stack, active, depth)
        if not root and r.random() < .1:
            return self.leaf(stack, active)
        e = self.element(stack, active, toggles=not root)
        kids = []
        size = len(own)
        for _ in range(r.randint(1, 3 + size // 6)):
            kids.append(self.leaf(stack, active))
        for c, sc in ls:
            if r.random() < self.reach:
                k = self.container(c, sc, stack, active, depth)
                if r.random() < .2:
                    w = self.element(stack, active)
                    w[2].append(k)
                    k = w
                kids.append(k)
        if len(stack) > 1 and r.random() < .06 and depth < 5:
            sc = r.choice(stack[:-1])
            ls = [(c, k.split(" ", 1)[1]) for c, k in sorted(self.cat[sc].items()) if k.startswith("list") and not {c, k.split(" ", 1)[1]} & active]
            if ls and not (set(l[1] for l in ls) & {"label"}):
                self.outer = True
                c, s2 = r.choice(ls)
                kids.append(self.container(c, s2, [sc], active | {x for x in own if own[x].startswith("list")}, depth + 3))
        r.shuffle(kids)
        for k in kids:
            e[2].append(k)
            if r.random() < .2:
                e[2].append(r.choice(("\n", " and ", "; ")))
        return e


# The expected page.

class Want:
    def __init__(self, tag, attrs, classes, hidden, kids, ordered=True):
        self.tag, self.attrs, self.classes, self.hidden, self.kids, self.ordered = tag, attrs, classes, hidden, kids, ordered


def render(t, env, again=False, cb=None, seen=None):
    """The page for a template in a scope; "again" for one filled in before."""
    if isinstance(t, str):
        return t
    tag, attrs, kids = t
    cls = set(attrs.get("class", "").split())
    hidden = "hide" in cls
    a = {k: v for k, v in attrs.items() if k != "class"}
    out, ordered = None, True
    for c in sorted(cls):
        e = env.get(c)
        if e is None:
            continue
        if seen is not None:
            seen.add((c, e[1]) if e[0] == "hide" else (c, len(e[2]) > 0) if e[0] == "list" else (c, e[-1] is ANY))
        if e[0] == "hide":
            hidden = e[1] if e[1] is not ANY else ANY
        elif e[0] == "attr":
            if e[2] is None:
                a.pop(e[1], None)
            else:
                a[e[1]] = e[2]
        elif e[0] == "text":
            out = ANY if e[1] is ANY else [e[1]] if e[1] else []
        else:
            tm = next((k for k in kids if not isinstance(k, str)), None)
            if not e[2]:
                hidden = True
                if again:
                    out = ANY
            elif tm is None:
                hidden = ANY
            else:
                hidden = False
                ordered = e[3]
                out = [render(tm, dict(env, **x), again, k, seen) for x, k in e[2]]
    if out is None:
        out = [render(k, env, again, None, seen) for k in kids]
    if cb is not None:
        a["data-cb"] = cb
    return Want(tag, a, cls - {"hide"}, hidden, out, ordered)


def outside(t, cls, env, again=False, seen=None):
    """The page with what has the class filled in and the rest as it was."""
    if isinstance(t, str):
        return t
    if cls in t[1].get("class", "").split():
        w = render(t, env, again, None, seen)
        w.hidden = False
        return w
    w = render(t, {}, again)
    w.kids = [outside(k, cls, env, again, seen) for k in t[2]]
    return w


def calls(w):
    """The callbacks of a page."""
    if not isinstance(w, Want):
        return []
    out = [w.attrs["data-cb"]] if "data-cb" in w.attrs else []
    for k in w.kids if w.kids is not ANY else []:
        out += calls(k)
    return out


def norm(s):
    return ",".join(x.strip() for x in s.split(","))


def diff(got, want, path=""):
    """What of the page isn't as it should be: (kind, details) or None."""
    if isinstance(want, str) or isinstance(got, str):
        if isinstance(want, Want) or not isinstance(got, str):
            return "structure", "%s: %r" % (path, got)
        return None if norm(got) == norm(want) else ("text", "%s: %r for %r" % (path, got, want))
    tag, attrs, kids = got
    path += "/%s%s" % (tag, "".join("." + c for c in sorted(want.classes)))
    if tag != want.tag:
        return "structure", path
    cls = set(attrs.get("class", "").split())
    if cls - {"hide"} != want.classes:
        return "classes", "%s: %s" % (path, attrs.get("class"))
    if want.hidden is not ANY and ("hide" in cls) != want.hidden:
        return ("shown" if want.hidden else "hidden"), path
    for k in (set(attrs) | set(want.attrs)) - {"class"}:
        x, y = attrs.get(k), want.attrs.get(k)
        if y is not ANY and x != y:
            return "attribute " + k, "%s: %r for %r" % (path, x, y)
    if want.kids is ANY:
        return None
    if len(kids) != len(want.kids):
        return "children", "%s: %d for %d: %s" % (path, len(kids), len(want.kids), str(kids)[:300])
    if want.ordered:
        for g, w in zip(kids, want.kids):
            x = diff(g, w, path)
            if x:
                return x
        return None
    left, last = list(want.kids), None
    for g in kids:
        for w in left:
            x = diff(g, w, path)
            if x is None:
                left.remove(w)
                break
            last = x
        else:
            return last
    return None


def count(t):
    return 1 if isinstance(t, str) else 1 + sum(map(count, t[2]))
