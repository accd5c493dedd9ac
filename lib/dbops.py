"""Random operation scripts against a configuration's database interface."""
import common, cfg, dbmodel
from cfg import *

STR = ["", "a", "A", "abc", "ABC", "aBc", "b%", "it's", 'q"q', "x_y", "ünï", "line\nbreak", "%", "_", "zz", "a\\b",
       "tab\there", "  pad "]
EMAIL = ["a@b.org", "A@B.org", "foo@bar.com", "z@z.zz", "long.name@example.com"]
PW = ["secret", "Secret", "", "pässword", "x" * 70, "a b"]
INT = [0, 1, 2, 3, -1, 7, 42, -100, 2 ** 31, -2 ** 31 - 1, 2 ** 53 + 1, 2 ** 62, -2 ** 62]
REAL = [0.0, 1.0, -1.5, 3.25, 0.1, 1e6, 1e300, -2.5e-7, 12345.678901234567, 7]
BLOB = [b"", b"\0", b"abc", b"\xff\0\xfe", b"x" * 50, b"ABC"]
DATE = [0, 86400, 951782400, -86400, 1582934400, 4102444800, 1600000000]
BITS = [0, 1, 2, 3, 5, 1 << 33, 1 << 62, -(1 << 63), -1, 33]


def domain(c, f):
    t = f.type
    if t == "enum":
        return list(c.e(f.tname).values().values())
    return {"text": STR, "email": EMAIL, "password": PW, "int": INT, "real": REAL, "blob": BLOB, "date": DATE,
            "epoch": DATE + [1, 1234567890123], "bit": [0, 1], "bits": BITS}[t]


class Script:
    """Chooses arguments with the model's current contents in view."""

    def __init__(self, c, r, m, emptyblob=True):
        self.c, self.r, self.m = c, r, m
        self.ctr = 0
        self.small = {}

    def fresh(self, f):
        """A value of an ordinary field; a small pool per field so that
        different rows share values."""
        r = self.r
        k = id(f)
        if k not in self.small:
            d = domain(self.c, f)
            self.small[k] = r.sample(d, min(len(d), r.choice((2, 3, 5, 20))))
        if r.random() < .85:
            return r.choice(self.small[k])
        return r.choice(domain(self.c, f))

    def unique(self, f):
        self.ctr += 1
        n, t = self.ctr, f.type
        if t in ("int", "epoch", "bits"):
            return n * 3 + self.r.choice((0, 0, 2 ** 40))
        if t == "date":
            return n * 86400
        if t == "real":
            return n + .5
        if t == "blob":
            return b"u%d" % n
        if t == "email":
            return "u%d@x.org" % n
        if t in ("text", "password"):
            return "u%d" % n
        return self.fresh(f)

    def existing(self, s, f):
        vs = [r[f.name] for _, r in self.m.rows(s) if r[f.name] is not None]
        return self.r.choice(vs) if vs else None

    def store(self, s, f):
        """A value to be stored in a field."""
        r = self.r
        if f.null and r.random() < .3:
            return None
        if f.ref:
            t = self.c.s(f.ref[0])
            tf = t.f(f.ref[1])
            v = self.existing(t, tf)
            if v is None or r.random() < .08:
                if f.null and r.random() < .7:
                    return None
                v = self.unique(tf)
            return v
        if (f.unique or any(f.name in u for u in s.uniques) and r.random() < .5) and r.random() < .9:
            return self.unique(f)
        return self.fresh(f)

    def arg(self, s, f, op):
        """A value to compare a field with."""
        r = self.r
        if f.type == "password" and op not in ("streq", "strneq"):
            return r.choice(self.small.get(id(f), PW) if r.random() < .8 else PW)
        v = self.existing(s, f) if r.random() < .75 else None
        if v is None:
            v = self.fresh(f)
        if op == "like" and r.random() < .7:
            k = r.randrange(5)
            v = [v[:1] + "%", "%" + v[-1:], "%" + v[1:-1] + "%", v.swapcase(), "_" * len(v)][k]
        if op in ("lt", "le", "gt", "ge") and f.type in ("int", "epoch", "date") and r.random() < .3:
            v = max(-2 ** 62, min(2 ** 62, v + r.choice((-1, 1))))
        return v

    def insert(self, s):
        return [self.store(s, f) for f in s.fields if f.type != "struct" and not f.rowid]

    def cons(self, s, u):
        return [self.arg(s, s.f(fn), op) for fn, op in u.cons if op not in UNARY]

    def mods(self, s, u):
        ms = u.mods or [(f.name, "set") for f in s.fields if f.type != "struct" and not f.rowid]
        out = []
        for fn, m in ms:
            f = s.f(fn)
            if m in ("inc", "dec"):
                out.append(self.r.choice((1, 2, -3, 0, 10) if f.type != "real" else (0.5, 1.0, -2.25)))
            elif m == "concat":
                out.append(self.r.choice(("x", "", "tail'", b"") [:3]) if f.type != "blob" else b"z")
            else:
                out.append(self.store(s, f))
        return out

    def query(self, s, q):
        out = []
        for p, op in q.terms:
            if op in UNARY:
                continue
            t, f = self.c.path_field(s, p)
            out.append(self.arg(t, f, op))
        return out


def real(s):
    return [f for f in s.fields if f.type != "struct"]
