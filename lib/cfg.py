"""Reference model of ort(5) configurations: data structures, random
generator, printer and canonical (order-insensitive) form.  Written from the
ort(5) manual; shares no code with the project."""
import re
import calendar, copy, random, string
from dataclasses import dataclass, field as dfield
from typing import Any, Dict, List, Optional, Tuple

NUMERIC = ("bit", "date", "enum", "epoch", "int", "real", "bits")
INTLIKE = ("bit", "date", "epoch", "int", "enum", "bits")
TYPES = ("bit", "bits", "blob", "date", "email", "enum", "epoch", "int", "password", "real", "text")
UNARY = ("isnull", "notnull")
OPS = ("eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull")


@dataclass
class Item:
    name: str
    value: Optional[int] = None          # None: automatic (enum only)
    doc: Optional[str] = None
    labels: Dict[str, str] = dfield(default_factory=dict)   # '' = default


@dataclass
class Enum:
    name: str
    items: List[Item]
    doc: Optional[str] = None
    isnull: Dict[str, str] = dfield(default_factory=dict)

    def values(self):
        """name -> resolved value following ort(5)'s automatic assignment."""
        out = {}
        mx = None
        for i in self.items:
            if i.value is not None:
                mx = i.value if mx is None else max(mx, i.value)
        nxt = 0 if mx is None else max(mx + 1, 0)
        for i in self.items:
            if i.value is not None:
                out[i.name] = i.value
            else:
                out[i.name] = nxt
                nxt += 1
        return out


@dataclass
class Bitf:
    name: str
    items: List[Item]
    doc: Optional[str] = None
    isunset: Dict[str, str] = dfield(default_factory=dict)
    isnull: Dict[str, str] = dfield(default_factory=dict)


@dataclass
class Field:
    name: str
    type: str = "int"
    ref: Optional[Tuple[str, str]] = None    # foreign key
    src: Optional[str] = None                # struct type: source field
    tname: Optional[str] = None              # enum/bits type name
    rowid: bool = False
    null: bool = False
    unique: bool = False
    noexport: bool = False
    default: Any = None                      # int | float | str | (y,m,d) | enum item
    limits: List[Tuple[str, Any]] = dfield(default_factory=list)
    actdel: str = "none"
    actup: str = "none"
    doc: Optional[str] = None


@dataclass
class Search:
    type: str                                # search list iterate count
    terms: List[Tuple[Tuple[str, ...], str]] = dfield(default_factory=list)
    name: Optional[str] = None
    doc: Optional[str] = None
    order: List[Tuple[Tuple[str, ...], str]] = dfield(default_factory=list)
    group: Optional[Tuple[Tuple[str, ...], str, Tuple[str, ...]]] = None  # group, maxrow|minrow, aggr
    distinct: Optional[Tuple[str, ...]] = None                           # () is "."
    limit: int = 0
    offset: int = 0


@dataclass
class Update:
    mods: List[Tuple[str, str]]              # [] = all fields (update only)
    cons: List[Tuple[str, str]]
    name: Optional[str] = None
    doc: Optional[str] = None


@dataclass
class Role:
    name: str
    doc: Optional[str] = None
    subs: List["Role"] = dfield(default_factory=list)


@dataclass
class Struct:
    name: str
    fields: List[Field] = dfield(default_factory=list)
    searches: List[Search] = dfield(default_factory=list)
    updates: List[Update] = dfield(default_factory=list)
    deletes: List[Update] = dfield(default_factory=list)
    insert: bool = False
    uniques: List[Tuple[str, ...]] = dfield(default_factory=list)
    roles: List[Tuple[Tuple[str, ...], List[Tuple[str, Optional[str]]]]] = dfield(default_factory=list)
    doc: Optional[str] = None

    def f(self, name):
        for x in self.fields:
            if x.name == name:
                return x
        return None

    def rowid(self):
        for x in self.fields:
            if x.rowid:
                return x
        return None


@dataclass
class Config:
    structs: List[Struct] = dfield(default_factory=list)
    enums: List[Enum] = dfield(default_factory=list)
    bitfs: List[Bitf] = dfield(default_factory=list)
    roles: Optional[List[Role]] = None

    def s(self, name):
        for x in self.structs:
            if x.name == name:
                return x
        return None

    def e(self, name):
        for x in self.enums:
            if x.name == name:
                return x

    def b(self, name):
        for x in self.bitfs:
            if x.name == name:
                return x

    def clone(self):
        return copy.deepcopy(self)

    # -- paths
    def target(self, s, f):
        """Struct referred to by struct-typed field f of struct s."""
        src = s.f(f.src)
        return self.s(src.ref[0])

    def path_field(self, s, path):
        """(owning struct, field) at the end of a dotted path."""
        for p in path[:-1]:
            s = self.target(s, s.f(p))
        return s, s.f(path[-1])

    def all_roles(self):
        out = []

        def rec(rs, parent):
            for r in rs:
                out.append((r, parent))
                rec(r.subs, r)
        rec(self.roles or [], None)
        return out

    def role_parents(self):
        """role name -> parent name; explicit top-level roles sit under 'all'."""
        return {r.name: (p.name if p else "all") for r, p in self.all_roles()}

    def ancestors(self, role):
        """role and its ancestors, inclusive."""
        par = self.role_parents()
        out = [role]
        while out[-1] in par:
            out.append(par[out[-1]])
        return out

    def topo(self):
        """Structs ordered with nested (struct-typed) targets first."""
        out, seen = [], set()

        def rec(s):
            if s.name in seen:
                return
            seen.add(s.name)
            for f in s.fields:
                if f.type == "struct":
                    rec(self.target(s, f))
            out.append(s)
        for s in self.structs:
            rec(s)
        return out

    # -- role model
    def op_roles(self, s):
        """Effective allowed roles of each operation: (kind, name|None, idx) -> set."""
        allr = set()
        named = {}
        for rs, ops in s.roles:
            for t, n in ops:
                if t == "all":
                    allr |= set(rs)
                elif t != "noexport":
                    named.setdefault((t, n), set()).update(rs)
        out = {}
        for i, q in enumerate(s.searches):
            out[("query", i)] = set(allr) | (named.get((q.type, q.name), set()) if q.name else set())
        for i, u in enumerate(s.updates):
            out[("update", i)] = set(allr) | (named.get(("update", u.name), set()) if u.name else set())
        for i, u in enumerate(s.deletes):
            out[("delete", i)] = set(allr) | (named.get(("delete", u.name), set()) if u.name else set())
        if s.insert:
            out[("insert", 0)] = set(allr) | named.get(("insert", None), set())
        return out

    def noexport_roles(self, s):
        alln = set()
        per = {f.name: set() for f in s.fields}
        for rs, ops in s.roles:
            for t, n in ops:
                if t == "noexport":
                    if n is None:
                        alln |= set(rs)
                    else:
                        per[n] |= set(rs)
        return {k: v | alln for k, v in per.items()}


def date_epoch(d):
    y, m, dd = d
    return calendar.timegm((y, m, dd, 0, 0, 0, 0, 0, 0))


# ---------------------------------------------------------------- canonical
def canon_default(c, f):
    if f.default is None:
        return None
    if f.type == "date":
        return ("int", date_epoch(f.default)) if isinstance(f.default, tuple) else ("rawint", f.default)
    if f.type == "real":
        return ("real", float(f.default))
    if f.type == "enum":
        return ("enum", f.default)
    if f.type in ("text", "email"):
        return ("str", f.default)
    return ("int", f.default)


def canon_field(c, f):
    lims = sorted((op, float(v) if f.type == "real" else v) for op, v in f.limits)
    return (f.name, f.type, f.ref, f.src, f.tname,
            tuple(k for k in ("rowid", "null", "unique", "noexport")
                  if getattr(f, k) and not (k == "unique" and f.rowid)),
            canon_default(c, f), tuple(lims), f.actdel, f.actup, norm_doc(f.doc))


def norm_doc(d):
    return None if d is None else re.sub("\r+\n", "\n", d)


def norm_label(d):
    # ort(1) deliberately folds white-space within labels when formatting.
    return re.sub(r"[ \t\n\v\f\r]+", " ", d)


def labs(d):
    return tuple(sorted((k, norm_label(v)) for k, v in d.items()))


def canon_search(q):
    return (q.type, q.name or "", tuple((p, o) for p, o in q.terms), tuple(q.order),
            q.group or (), q.distinct if q.distinct is not None else None, q.limit, q.offset,
            norm_doc(q.doc))


def canon_update(s, u, kind):
    mods = tuple(u.mods)
    if kind == "update" and not mods:
        mods = ("*",)
    return (kind, u.name or "", mods, tuple(u.cons), norm_doc(u.doc))


def srt(l):
    return tuple(sorted(l, key=repr))


def canon_struct(c, s):
    opr = c.op_roles(s)
    ops = []
    for (k, i), rs in opr.items():
        if k == "query":
            ident = canon_search(s.searches[i])
        elif k == "update":
            ident = canon_update(s, s.updates[i], "update")
        elif k == "delete":
            ident = canon_update(s, s.deletes[i], "delete")
        else:
            ident = ("insert",)
        ops.append((ident, tuple(sorted(rs))))
    return {
        "doc": norm_doc(s.doc),
        "fields": tuple(canon_field(c, f) for f in s.fields),
        "ops": srt(ops),
        "uniques": srt(tuple(sorted(u)) for u in s.uniques),
        "noexport": tuple(sorted((k, tuple(sorted(v))) for k, v in c.noexport_roles(s).items() if v)),
    }


def canon_role(r):
    return (r.name, norm_doc(r.doc), srt(canon_role(x) for x in r.subs))


def canon(c):
    out = {"structs": {}, "enums": {}, "bitfs": {}, "roles": None}
    for s in c.structs:
        out["structs"][s.name] = canon_struct(c, s)
    for e in c.enums:
        v = e.values()
        out["enums"][e.name] = {
            "doc": norm_doc(e.doc), "isnull": labs(e.isnull),
            "items": tuple((i.name, v[i.name], norm_doc(i.doc), labs(i.labels)) for i in e.items)}
    for b in c.bitfs:
        out["bitfs"][b.name] = {
            "doc": norm_doc(b.doc), "isnull": labs(b.isnull), "isunset": labs(b.isunset),
            "items": tuple((i.name, i.value, norm_doc(i.doc), labs(i.labels)) for i in b.items)}
    if c.roles is not None:
        out["roles"] = srt(canon_role(r) for r in c.roles)
    return out


def diff_canon(a, b, path=""):
    """First few differences between two canonical forms, as text."""
    out = []
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                out.append("%s/%s only on one side" % (path, k))
            else:
                out += diff_canon(a[k], b[k], path + "/" + str(k))
    elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff_canon(x, y, path + "[%d]" % i)
    elif a != b:
        out.append("%s: %r != %r" % (path, a, b))
    return out[:20]


# ---------------------------------------------------------------- printer
class Style:
    """How to spell a configuration.  The default is plain; randomised styles
    must not change meaning."""

    def __init__(self, rng=None, case=False, space=False, order=False, defaults=False, alias=False):
        self.rng = rng or random.Random(0)
        self.case, self.space, self.order = case, space, order
        self.defaults, self.alias = defaults, alias

    @staticmethod
    def noisy(rng):
        return Style(rng, True, True, True, True, True)


class Tok(str):
    pass


class Str(str):
    pass


def fmt_real(v):
    r = repr(float(v))
    if "e" in r or "E" in r:
        from decimal import Decimal
        r = format(Decimal(r), "f")
    if "." not in r:
        r += ".0"
    return r


def toks_labels(d, st):
    out = []
    ks = list(d)
    if st.order:
        st.rng.shuffle(ks)
    for k in ks:
        out.append("jslabel")
        if k:
            out += [".", k]
        out.append(Str(d[k]))
    return out


def toks_path(p):
    out = []
    for i, x in enumerate(p):
        if i:
            out.append(".")
        out.append(x)
    return out


def toks_default(f):
    if f.type == "date":
        if isinstance(f.default, tuple):
            return ["%d" % f.default[0], "-%02d" % f.default[1], "-%02d" % f.default[2]]
        return ["%d" % f.default]
    if f.type == "real":
        return [fmt_real(f.default) if isinstance(f.default, float) else "%d" % f.default]
    if f.type in ("text", "email"):
        return [Str(f.default)]
    if f.type == "enum":
        return [f.default]
    return ["%d" % f.default]


def toks_field(f, st):
    t = ["field", f.name]
    if f.ref:
        t += [":", f.ref[0], ".", f.ref[1]]
    info = []
    if f.rowid:
        info.append(["rowid"])
    if f.null:
        info.append(["null"])
    if f.unique:
        info.append(["unique"])
    if f.noexport:
        info.append(["noexport"])
    if f.default is not None:
        info.append(["default"] + toks_default(f))
    for op, v in f.limits:
        info.append(["limit", op, (fmt_real(v) if isinstance(v, float) else "%d" % v)])
    if f.actdel != "none":
        info.append(["actdel", f.actdel])
    if f.actup != "none":
        info.append(["actup", f.actup])
    if f.doc is not None:
        info.append(["comment", Str(f.doc)])
    if st.order:
        st.rng.shuffle(info)
    bare = f.type == "int" and not info and st.defaults and st.rng.random() < .5
    if not bare:
        ty = f.type
        if st.alias and st.rng.random() < .5:
            ty = {"bits": "bitfield", "real": "double", "int": "integer",
                  "password": "passwd", "text": "txt"}.get(ty, ty)
        t.append(ty)
        if f.type == "struct":
            t.append(f.src)
        if f.type in ("enum", "bits"):
            t.append(f.tname)
    for i in info:
        t += i
    return t + [";"]


def toks_search(q, st):
    t = [q.type]
    first = True
    for p, op in q.terms:
        if not first:
            t.append(",")
        first = False
        t += toks_path(p)
        if op != "eq" or (st.defaults and st.rng.random() < .3):
            t.append(op)
    par = []
    if q.name:
        par.append(["name", q.name])
    if q.doc is not None:
        par.append(["comment", Str(q.doc)])
    if q.order:
        o = ["order"]
        for i, (p, d) in enumerate(q.order):
            if i:
                o.append(",")
            o += toks_path(p)
            if d != "asc" or (st.defaults and st.rng.random() < .3):
                o.append(d)
        par.append(o)
    if q.group:
        par.append(["grouprow"] + toks_path(q.group[0]))
        par.append([q.group[1]] + toks_path(q.group[2]))
    if q.distinct is not None:
        par.append(["distinct"] + (toks_path(q.distinct) if q.distinct else ["."]))
    if q.limit or q.offset:
        l = ["limit", "%d" % q.limit]
        if q.offset:
            l += [",", "%d" % q.offset]
        par.append(l)
    if st.order:
        st.rng.shuffle(par)
    if par or (st.defaults and st.rng.random() < .2):
        t.append(":")
        for x in par:
            t += x
    return t + [";"]


def toks_update(kind, u, st):
    t = [kind]
    par = []
    if u.name:
        par.append(["name", u.name])
    if u.doc is not None:
        par.append(["comment", Str(u.doc)])
    if st.order:
        st.rng.shuffle(par)
    if kind == "update":
        for i, (f, m) in enumerate(u.mods):
            if i:
                t.append(",")
            t.append(f)
            if m != "set" or (st.defaults and st.rng.random() < .3):
                t.append(m)
        if u.cons or par:
            t.append(":")
    for i, (f, o) in enumerate(u.cons):
        if i:
            t.append(",")
        t.append(f)
        if o != "eq" or (st.defaults and st.rng.random() < .3):
            t.append(o)
    if par:
        t.append(":")
        for x in par:
            t += x
    return t + [";"]


def toks_struct(s, st):
    stm = [toks_field(f, st) for f in s.fields]
    rest = []
    rest += [toks_search(q, st) for q in s.searches]
    rest += [toks_update("update", u, st) for u in s.updates]
    rest += [toks_update("delete", u, st) for u in s.deletes]
    if s.insert:
        rest.append(["insert", ";"])
    for u in s.uniques:
        t = ["unique"]
        uu = list(u)
        if st.order:
            st.rng.shuffle(uu)
        for i, x in enumerate(uu):
            if i:
                t.append(",")
            t.append(x)
        rest.append(t + [";"])
    for rs, ops in s.roles:
        t = ["roles"]
        for i, x in enumerate(rs):
            if i:
                t.append(",")
            t.append(x)
        t.append("{")
        ops = list(ops)
        if st.order:
            st.rng.shuffle(ops)
        for ty, n in ops:
            t.append(ty)
            if n is not None:
                t.append(n)
            t.append(";")
        rest.append(t + ["}", ";"])
    if s.doc is not None:
        rest.append(["comment", Str(s.doc), ";"])
    if st.order:
        # fields keep their relative order (it is column order); all else moves
        st.rng.shuffle(rest)
        merged = []
        a, b = list(stm), list(rest)
        while a or b:
            if a and (not b or st.rng.random() < len(a) / (len(a) + len(b))):
                merged.append(a.pop(0))
            else:
                merged.append(b.pop(0))
        stm = merged
    else:
        stm += rest
    t = ["struct", s.name, "{"]
    for x in stm:
        t += x + ["\n"]
    return t + ["}", ";", "\n"]


def toks_item(i, st, bits):
    t = ["item", i.name]
    if i.value is not None:
        t.append("%d" % i.value)
    a = []
    if i.labels:
        a.append(toks_labels(i.labels, st))
    if i.doc is not None:
        a.append(["comment", Str(i.doc)])
    if st.order:
        st.rng.shuffle(a)
    for x in a:
        t += x
    return t + [";"]


def toks_enum(e, st, kw):
    stm = [toks_item(i, st, False) for i in e.items]
    ext = []
    if e.isnull:
        ext.append(["isnull"] + toks_labels(e.isnull, st) + [";"])
    if getattr(e, "isunset", None):
        ext.append(["isunset"] + toks_labels(e.isunset, st) + [";"])
    if e.doc is not None:
        ext.append(["comment", Str(e.doc), ";"])
    if st.order:
        st.rng.shuffle(ext)
        for x in ext:
            stm.insert(st.rng.randint(0, len(stm)), x)
    else:
        stm += ext
    if kw == "bits" and st.alias and st.rng.random() < .5:
        kw = "bitfield"
    t = [kw, e.name, "{"]
    for x in stm:
        t += x + ["\n"]
    return t + ["}", ";", "\n"]


def toks_role(r, st):
    t = ["role", r.name]
    if r.doc is not None:
        t += ["comment", Str(r.doc)]
    subs = list(r.subs)
    if st.order:
        st.rng.shuffle(subs)
    if subs:
        t.append("{")
        for x in subs:
            t += toks_role(x, st)
        t.append("}")
    return t + [";"]


def toks_config(c, st):
    """List of token lists, one per top-level object."""
    out = []
    if c.roles is not None:
        rs = list(c.roles)
        if st.order:
            st.rng.shuffle(rs)
        t = ["roles", "{"]
        for r in rs:
            t += toks_role(r, st)
        out.append(t + ["}", ";", "\n"])
    out += [toks_enum(e, st, "enum") for e in c.enums]
    out += [toks_enum(b, st, "bits") for b in c.bitfs]
    out += [toks_struct(s, st) for s in c.structs]
    if st.order:
        st.rng.shuffle(out)
    return out


WORD = set(string.ascii_letters + string.digits + "-")


def render(toks, st):
    out = []
    r = st.rng
    prev = ""
    for t in toks:
        if t == "\n":
            if not st.space:
                out.append("\n")
                prev = "\n"
            continue
        s = str(t)
        if isinstance(t, Str):
            s = '"' + s + '"'
        elif st.case and s and s[0].isalpha():
            s = "".join(ch.upper() if r.random() < .5 else ch.lower() for ch in s)
        need = bool(prev) and prev[-1] in WORD and s[0] in WORD
        if need and s[0] == "-" and prev[-1].isdigit() and st.space and r.random() < .5:
            need = False
        if st.space:
            ws = ""
            n = r.choice((0, 0, 0, 1, 1, 2, 4))
            for _ in range(n):
                ws += r.choice((" ", "  ", "\t", "\n", "\r\n", "\v", "\f",
                                "# it's a \"comment\" { ; }\n", "#\n"))
            if need and not ws:
                ws = r.choice((" ", "\t", "\n"))
            out.append(ws)
        elif prev and prev != "\n":
            if need or (s not in (";", ",", ".", ":") and prev not in (".", ":")):
                out.append(" ")
        out.append(s)
        prev = s
    out.append("\n" if not st.space or r.random() < .7 else "")
    return "".join(out)


def to_text(c, st=None):
    st = st or Style()
    t = []
    for o in toks_config(c, st):
        t += o
    return render(t, st)


def to_files(c, st, n):
    """Split the top-level objects over n files (some may be empty)."""
    fs = [[] for _ in range(n)]
    for o in toks_config(c, st):
        fs[st.rng.randrange(n)] += o
    return [render(t, st) for t in fs]
