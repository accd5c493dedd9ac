"""Independent parser for ort(5) text, into cfg.Config.  Used to read what the
tools print.  It is strict about syntax and raises on anything unexpected."""
import re
from cfg import *


class Bad(Exception):
    pass


def lex(text):
    out, i, n = [], 0, len(text)
    while i < n:
        ch = text[i]
        if ch in " \t\r\n\v\f":
            i += 1
        elif ch == "#":
            while i < n and text[i] != "\n":
                i += 1
        elif ch == '"':
            j, b = i + 1, []
            while True:
                if j >= n:
                    raise Bad("unterminated string")
                if text[j] == '"' and (j == i + 1 or text[j - 1] != "\\"):
                    break
                b.append(text[j])
                j += 1
            out.append(("str", re.sub("\r+\n", "\n", "".join(b))))
            i = j + 1
        elif ch in "{};,.:":
            out.append((ch, ch))
            i += 1
        elif ch.isdigit() or ch == "-":
            j = i + 1
            if ch == "-" and not (j < n and text[j].isdigit()):
                raise Bad("lone dash")
            dot = False
            while j < n and (text[j].isdigit() or (text[j] == "." and not dot)):
                if text[j] == ".":
                    dot = True
                j += 1
            out.append(("dec", float(text[i:j])) if dot else ("int", int(text[i:j])))
            i = j
        elif ch.isascii() and ch.isalpha():
            j = i
            while j < n and text[j].isascii() and text[j].isalnum():
                j += 1
            out.append(("id", text[i:j].lower()))
            i = j
        else:
            raise Bad("unknown character %r" % ch)
    return out


class P:
    def __init__(self, text):
        self.t, self.i = lex(text), 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("eof", None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def exp(self, kind, val=None):
        k, v = self.next()
        if k != kind or (val is not None and v != val):
            raise Bad("expected %s %s, have %s %r (token %d)" % (kind, val, k, v, self.i))
        return v

    def opt(self, kind, val=None):
        k, v = self.peek()
        if k == kind and (val is None or v == val):
            self.i += 1
            return True
        return False

    def ident(self):
        return self.exp("id")

    def path(self):
        p = [self.ident()]
        while self.opt("."):
            p.append(self.ident())
        return tuple(p)

    # ------------------------------------------------------------
    def config(self):
        c = Config()
        while self.peek()[0] != "eof":
            k = self.ident()
            if k == "roles":
                if c.roles is not None:
                    raise Bad("roles twice")
                c.roles = []
                self.exp("{")
                while not self.opt("}"):
                    c.roles.append(self.role())
                self.exp(";")
            elif k == "struct":
                c.structs.append(self.struct())
            elif k == "enum":
                c.enums.append(self.enum(False))
            elif k in ("bits", "bitfield"):
                c.bitfs.append(self.enum(True))
            else:
                raise Bad("top-level " + k)
        return c

    def role(self):
        self.exp("id", "role")
        r = Role(self.ident())
        if self.opt("id", "comment"):
            r.doc = self.exp("str")
        if self.opt("{"):
            while not self.opt("}"):
                r.subs.append(self.role())
        self.exp(";")
        return r

    def label(self, d):
        l = ""
        if self.opt("."):
            l = self.ident()
        if l in d:
            raise Bad("label twice")
        d[l] = self.exp("str")

    def enum(self, bits):
        e = (Bitf if bits else Enum)(self.ident(), [])
        self.exp("{")
        while not self.opt("}"):
            k = self.ident()
            if k == "comment":
                e.doc = self.exp("str")
                self.exp(";")
            elif k == "isnull" or (bits and k == "isunset"):
                d = e.isnull if k == "isnull" else e.isunset
                while self.opt("id", "jslabel"):
                    self.label(d)
                self.exp(";")
            elif k == "item":
                i = Item(self.ident())
                if self.peek()[0] == "int":
                    i.value = self.next()[1]
                while not self.opt(";"):
                    w = self.ident()
                    if w == "comment":
                        i.doc = self.exp("str")
                    elif w == "jslabel":
                        self.label(i.labels)
                    else:
                        raise Bad("item info " + w)
                e.items.append(i)
            else:
                raise Bad("enum statement " + k)
        self.exp(";")
        return e

    def struct(self):
        s = Struct(self.ident())
        self.exp("{")
        while not self.opt("}"):
            k = self.ident()
            if k == "comment":
                s.doc = self.exp("str")
                self.exp(";")
            elif k == "field":
                s.fields.append(self.field())
            elif k in ("search", "list", "iterate", "count"):
                s.searches.append(self.search(k))
            elif k == "update":
                s.updates.append(self.update(k))
            elif k == "delete":
                s.deletes.append(self.update(k))
            elif k == "insert":
                s.insert = True
                self.exp(";")
            elif k == "unique":
                u = [self.ident()]
                while self.opt(","):
                    u.append(self.ident())
                self.exp(";")
                s.uniques.append(tuple(u))
            elif k == "roles":
                rs = [self.ident()]
                while self.opt(","):
                    rs.append(self.ident())
                self.exp("{")
                ops = []
                while not self.opt("}"):
                    t = self.ident()
                    n = None
                    if self.peek()[0] == "id":
                        n = self.ident()
                    self.exp(";")
                    ops.append((t, n))
                self.exp(";")
                s.roles.append((tuple(rs), ops))
            else:
                raise Bad("struct statement " + k)
        self.exp(";")
        return s

    def field(self):
        f = Field(self.ident())
        if self.opt(":"):
            a = self.ident()
            self.exp(".")
            f.ref = (a, self.ident())
        if self.peek()[0] == "id":
            t = self.ident()
            f.type = {"bitfield": "bits", "double": "real", "integer": "int",
                      "passwd": "password", "txt": "text"}.get(t, t)
            if f.type not in TYPES + ("struct",):
                raise Bad("type " + t)
            if f.type == "struct":
                f.src = self.ident()
            elif f.type in ("enum", "bits"):
                f.tname = self.ident()
        while not self.opt(";"):
            k = self.ident()
            if k in ("rowid", "null", "unique", "noexport"):
                setattr(f, k, True)
            elif k == "comment":
                f.doc = self.exp("str")
            elif k in ("actdel", "actup"):
                setattr(f, k, self.ident())
            elif k == "limit":
                op = self.ident()
                kk, v = self.next()
                if kk not in ("int", "dec") or (kk == "dec" and f.type != "real"):
                    raise Bad("limit value")
                f.limits.append((op, v))
            elif k == "default":
                kk, v = self.next()
                if f.type == "date" and kk == "int" and self.peek()[0] == "int":
                    m = self.next()[1]
                    d = self.exp("int")
                    v = (v, -m, -d)
                    kk = "date"
                ok = {"date": ("date", "int"), "real": ("int", "dec"), "enum": ("id",),
                      "text": ("str",), "email": ("str",)}.get(f.type, ("int",))
                if kk not in ok:
                    raise Bad("default %s for %s" % (kk, f.type))
                f.default = v
            else:
                raise Bad("field info " + k)
        return f

    def search(self, ty):
        q = Search(ty)
        if self.peek()[0] == "id":
            while True:
                p = self.path()
                op = "eq"
                if self.peek()[0] == "id":
                    op = self.ident()
                    if op not in OPS:
                        raise Bad("operator " + op)
                q.terms.append((p, op))
                if not self.opt(","):
                    break
        if self.opt(":"):
            grp = agg = None
            while self.peek()[0] == "id":
                k = self.ident()
                if k == "name":
                    q.name = self.ident()
                elif k == "comment":
                    q.doc = self.exp("str")
                elif k == "order":
                    while True:
                        p = self.path()
                        d = "asc"
                        if self.peek() in (("id", "asc"), ("id", "desc")):
                            d = self.ident()
                        q.order.append((p, d))
                        if not self.opt(","):
                            break
                elif k == "limit":
                    q.limit = self.exp("int")
                    if self.opt(","):
                        q.offset = self.exp("int")
                elif k == "grouprow":
                    grp = self.path()
                elif k in ("maxrow", "minrow"):
                    agg = (k, self.path())
                elif k == "distinct":
                    q.distinct = () if self.opt(".") else self.path()
                else:
                    raise Bad("search parameter " + k)
            if grp or agg:
                if not (grp and agg):
                    raise Bad("half a group")
                q.group = (grp, agg[0], agg[1])
        self.exp(";")
        return q

    def update(self, kind):
        u = Update([], [])

        def flds(l, d, allowed):
            while True:
                f = self.ident()
                o = d
                if self.peek()[0] == "id":
                    o = self.ident()
                    if o not in allowed:
                        raise Bad("operator " + o)
                l.append((f, o))
                if not self.opt(","):
                    break
        if kind == "update":
            if self.peek()[0] == "id":
                flds(u.mods, "set", ("set", "strset", "concat", "inc", "dec"))
            if self.opt(";"):
                return u
            self.exp(":")
        if self.peek()[0] == "id":
            flds(u.cons, "eq", OPS)
        if self.opt(":"):
            while self.peek()[0] == "id":
                k = self.ident()
                if k == "name":
                    u.name = self.ident()
                elif k == "comment":
                    u.doc = self.exp("str")
                else:
                    raise Bad("update parameter " + k)
        self.exp(";")
        return u


def parse(text):
    return P(text).config()
