"""Random generator of valid ort(5) configurations (see cfg.py)."""
import random
from cfg import *

RESERVED = set("""abort action add after all alter analyze and as asc attach autoincrement before begin
between by cascade case cast check collate column commit conflict constraint create cross database default
deferrable deferred delete desc detach distinct drop each else end escape except exclusive exists explain fail
for foreign from full glob group having if ignore immediate in index indexed initially inner insert instead
intersect into is isnull join key left like limit match natural not notnull null of offset on or order outer
plan pragma primary query raise recursive references regexp reindex release rename replace restrict right
rollback row savepoint select set table temp temporary then to transaction trigger union unique update using
vacuum values view virtual when where with without auto break char const continue do double enum extern float
goto int long register return short signed sizeof static struct switch typedef unsigned void volatile while
class public private protected new this super import export function var let async await yield delete typeof
instanceof debugger arguments eval static interface package implements true false fn impl trait mod mut pub ref
self type use unsafe where loop match move box dyn macro final override priv abstract become try virtual crate
none role roles bit bits date email epoch password real text blob string number boolean any object symbol
inline bool asm ort data obj array name comment over window range rows filter do nothing generated always
exclude groups others ties current following preceding unbounded materialized returning first last nulls
partition within""".split())
CONS = "bcdfghklmnprstvz"
VOWS = "aeiou"


class Names:
    def __init__(self, rng, words=(), others=()):
        self.r, self.used, self.words, self.others = rng, set(), words, others

    def new(self, short=False):
        if self.others and self.r.random() < .4:
            n = self.r.choice(self.others)
            if n not in self.used:
                self.used.add(n)
                return n
        if self.words and self.r.random() < .1:
            n = self.r.choice(self.words)
            if n not in self.used:
                self.used.add(n)
                return n
        while True:
            n = "".join(self.r.choice(CONS) + self.r.choice(VOWS)
                        for _ in range(self.r.choice((1, 2, 2, 3) if not short else (1, 2))))
            if self.r.random() < .25:
                n += str(self.r.randint(0, 99))
            if n in RESERVED or n in self.used or len(n) < 2:
                continue
            self.used.add(n)
            return n


@dataclass
class Opts:
    structs: Tuple[int, int] = (1, 5)
    fields: Tuple[int, int] = (1, 6)
    types: Tuple[str, ...] = TYPES
    roles: float = .5            # probability of a roles block
    rolegrants: int = 3          # role statements per structure, at most
    queries: Tuple[int, int] = (0, 5)
    updates: Tuple[int, int] = (0, 3)
    deletes: Tuple[int, int] = (0, 2)
    text: str = "wild"           # plain | wild: content of comments and labels
    labels: float = .5
    docs: float = .3
    limits: float = .4
    defaults: float = .3
    nullrefs: bool = True
    distinct: bool = True
    group: bool = True
    uniques: float = .3
    rowid: float = .85           # probability that a struct has a rowid
    insert: float = .8
    hashterms: bool = True       # password eq/neq query terms
    nested: float = .6
    fkactions: bool = True
    langs: Tuple[str, ...] = ("en", "fr", "de", "x1")
    limit_bits: bool = True
    offset_only: bool = True     # limit 0, N
    extreme_ints: bool = True
    named: float = .75
    share: float = .5            # probability of a structure sharing names of fields with others
    search_unique_only: bool = False
    blobterms: bool = True
    crlf: bool = True
    docbs: bool = True           # backslashes / quotes in text
    selfref: bool = True
    dup_terms: bool = True
    words: Tuple[str, ...] = ()  # names to use now and then


PLAIN = ["A short note.", "hello world", "x", "Second item of the list", "The user's name"]
WILD = ['say \\"hi\\"', "it's", "tab\there", "line one\nline two", "ünïcödé ☃ text", "100% %s %d",
        "a/b -- c", "<b>&amp;</b>", "semi; colon: {brace}", "# hash", "$money ${x} `tick`", "trailing space ",
        " leading", "two  spaces", "\n\nblank lines\n\n", "ends */ here", "*/", "/* open", ".dot at start\n.Sh line", "comma, separated"]


def gtext(r, o, label=False):
    pool = list(PLAIN)
    if o.text == "wild":
        pool += WILD * 2
        if o.crlf and not label:
            pool += ["crlf\r\nline", "\r\nstart"]
        if not o.docbs:
            pool = [p for p in pool if "\\" not in p]
    n = r.choice((1, 1, 1, 2))
    s = " ".join(r.choice(pool) for _ in range(n))
    if not label and r.random() < .05:
        return ""
    return s


class Gen:
    def __init__(self, rng, opts=None):
        self.r, self.o = rng, opts or Opts()

    def doc(self):
        return gtext(self.r, self.o) if self.r.random() < self.o.docs else None

    def labels(self):
        d = {}
        if self.r.random() < self.o.labels:
            ks = [""] + list(self.o.langs)
            for k in self.r.sample(ks, self.r.randint(1, min(3, len(ks)))):
                d[k] = gtext(self.r, self.o, True) or "lbl"
        return d

    def ival(self, small=False):
        r = self.r
        c = [0, 1, -1, 5, 42, 100, -100, 1000]
        if self.o.extreme_ints and not small:
            c += [2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -(2 ** 63 - 1)]
        return r.choice(c)

    def rval(self):
        r = self.r
        return r.choice((0.0, 1.0, -1.5, 3.25, 0.1, 1e6, 123456.789, -0.000125, 1234567.0, 3, -7, 0.3333333333333333,
                         2.5e9, 99999.99))

    def config(self):
        r, o = self.r, self.o
        c = Config()
        top = Names(r, o.words)
        for _ in range(r.choice((0, 1, 1, 2))):
            nm = Names(r, o.words)
            e = Enum(top.new(), [], self.doc())
            vals = set()
            for _ in range(r.choice((1, 2, 2, 3, 3, 4, 4, 9))):
                v = None
                if r.random() < .6:
                    v = r.choice((0, 1, 2, 3, 7, 10, -1, -5, 100, 65536, 2 ** 31 - 10))
                    if v in vals:
                        continue
                    vals.add(v)
                e.items.append(Item(nm.new(), v, self.doc(), self.labels()))
            if not e.items:
                e.items.append(Item(nm.new(), None))
            e.isnull = self.labels() if r.random() < .4 else {}
            c.enums.append(e)
        for _ in range(r.choice((0, 1, 1))):
            nm = Names(r, o.words)
            b = Bitf(top.new(), [], self.doc())
            for v in r.sample(range(64) if r.random() < .5 else range(6), r.choice((1, 2, 3, 4, 6))):
                b.items.append(Item(nm.new(), v, self.doc(), self.labels()))
            b.isunset = self.labels() if r.random() < .4 else {}
            b.isnull = self.labels() if r.random() < .4 else {}
            c.bitfs.append(b)
        n = r.randint(*o.structs)
        for i in range(n):
            c.structs.append(Struct(top.new()))
        for i, s in enumerate(c.structs):
            self.fields(c, s, c.structs[:i])
        if r.random() < o.roles:
            nm = Names(r, o.words)
            c.roles = []

            def mk(depth):
                x = Role(nm.new(), self.doc())
                if depth < 3:
                    for _ in range(r.choice((0, 0, 1, 2)) if depth else r.choice((0, 1, 2))):
                        x.subs.append(mk(depth + 1))
                return x
            for _ in range(r.choice((0, 1, 2, 3))):
                c.roles.append(mk(0))
        for s in c.structs:
            self.ops(c, s)
            if c.roles is not None:
                self.srole(c, s)
            s.doc = self.doc()
        # struct order in the file is immaterial
        r.shuffle(c.structs)
        return c

    def fields(self, c, s, prev):
        r, o = self.r, self.o
        # structures often have fields of the same names
        nm = Names(r, o.words, [f.name for p in prev for f in p.fields] if r.random() < o.share else ())
        fs = []
        if r.random() < o.rowid:
            f = Field(nm.new(), "int", rowid=True)
            f.noexport = r.random() < .1
            f.doc = self.doc()
            if r.random() < .1:
                f.limits.append(("gt", 0))
            fs.append(f)
        for _ in range(r.randint(*o.fields)):
            fs.append(self.field(c, s, nm))
        # foreign keys and nested structures
        cand = [(p, x) for p in prev for x in p.fields
                if (x.rowid or x.unique) and x.type not in ("struct",)]
        if cand:
            for n in range(r.choice((0, 1, 1, 2))):
                p, x = r.choice(cand) if n == 0 or r.random() < .7 else (p, x)
                f = Field(nm.new(), x.type, ref=(p.name, x.name), tname=x.tname)
                f.null = r.random() < .35
                f.unique = r.random() < .15
                f.doc = self.doc()
                if o.fkactions:
                    acts = ["none", "none", "restrict", "cascade"]
                    if f.null:
                        acts += ["nullify", "default"]
                    f.actdel, f.actup = r.choice(acts), r.choice(acts)
                fs.append(f)
                if r.random() < o.nested and (o.nullrefs or not f.null):
                    g = Field(nm.new(), "struct", src=f.name)
                    g.doc = self.doc()
                    g.noexport = r.random() < .1
                    fs.append(g)
        if o.selfref and fs and fs[0].rowid and r.random() < .15:
            f = Field(nm.new(), "int", ref=(s.name, fs[0].name), null=True)
            fs.append(f)
        if not any(f.type != "struct" for f in fs):
            fs.append(self.field(c, s, nm))
        r.shuffle(fs)
        s.fields = fs
        real = [f for f in fs if f.type != "struct"]
        if len(real) >= 2 and r.random() < o.uniques:
            for _ in range(r.choice((1, 1, 2, 3))):
                u = tuple(f.name for f in r.sample(real, min(len(real), r.choice((2, 2, 3, 3, 4, 5, 7)))))
                if all(set(u) != set(v) for v in s.uniques):
                    s.uniques.append(u)

    def field(self, c, s, nm):
        r, o = self.r, self.o
        tys = [t for t in o.types if (t != "enum" or c.enums) and (t != "bits" or c.bitfs)]
        f = Field(nm.new(), r.choice(tys))
        if f.type == "enum":
            f.tname = r.choice(c.enums).name
        if f.type == "bits":
            f.tname = r.choice(c.bitfs).name
        f.null = r.random() < .3
        f.unique = r.random() < .15
        f.noexport = r.random() < .12
        f.doc = self.doc()
        if r.random() < o.limits and f.type not in ("enum",) and (f.type != "bits" or o.limit_bits):
            for _ in range(r.choice((1, 1, 2, 3, 5))):
                op = r.choice(("ge", "le", "gt", "lt", "eq"))
                if f.type in ("text", "email", "password", "blob"):
                    v = r.choice((0, 1, 2, 5, 10, 100, 255, 1024, 0, 1, 2, 5, 10, 100, 255, 1024, 2 ** 31, 2 ** 32, 2 ** 32 + 7, 2 ** 63 - 1))
                elif f.type == "real":
                    v = self.rval()
                else:
                    v = self.ival()
                if all(op != a or float(v) != float(b) for a, b in f.limits):
                    f.limits.append((op, v))
        if r.random() < o.defaults:
            if f.type in ("int", "epoch", "bit", "bits"):
                f.default = self.ival()
            elif f.type == "real":
                f.default = self.rval()
            elif f.type == "date":
                f.default = r.choice(((2000, 1, 1), (1970, 1, 1), (2038, 1, 19), (1969, 12, 31), (2020, 2, 29),
                                      (1901, 7, 4), (2400, 11, 30)))
            elif f.type in ("text", "email"):
                f.default = r.choice(("", "abc", "it's", 'q\\"q', "a b  c", "foo@bar.com", "100%", "x -- y; z"))
            elif f.type == "enum":
                f.default = r.choice(c.e(f.tname).items).name
        return f

    def paths(self, c, s, depth=0, pre=()):
        """All dotted paths to non-struct fields through non-null sub-structures."""
        out = []
        for f in s.fields:
            if f.type == "struct":
                if s.f(f.src).null or depth > 3:
                    continue
                out += self.paths(c, c.target(s, f), depth + 1, pre + (f.name,))
            else:
                out.append((pre + (f.name,), f))
        return out

    def spaths(self, c, s, depth=0, pre=()):
        """Paths to non-null sub-structures."""
        out = []
        for f in s.fields:
            if f.type == "struct" and not s.f(f.src).null and depth <= 3:
                out.append(pre + (f.name,))
                out += self.spaths(c, c.target(s, f), depth + 1, pre + (f.name,))
        return out

    def op_for(self, f, hashed=True, count=False):
        r = self.r
        ops = ["eq", "eq", "eq", "neq", "lt", "le", "gt", "ge", "streq", "strneq"]
        if f.type in ("text", "email"):
            ops += ["like"]
        if f.type in ("bit", "bits", "int"):
            ops += ["and", "or"]
        if f.type == "password":
            ops = ["streq", "strneq"]
            if hashed and not count:
                ops += ["eq", "eq", "neq"]
        if f.null or r.random() < .05:
            ops += ["isnull", "notnull"]
        return r.choice(ops)

    def ops(self, c, s):
        r, o = self.r, self.o
        nm = Names(r, o.words)
        ps = self.paths(c, s)
        if not o.blobterms:
            ps = [p for p in ps if p[1].type != "blob"]
        seen = set()
        for _ in range(r.randint(*o.queries)):
            q = Search(r.choice(("search", "search", "list", "list", "iterate", "count")))
            if ps and (q.type == "search" or r.random() < .8):
                for _ in range(r.choice((1, 1, 1, 2, 3, 5))):
                    p, f = r.choice(ps)
                    if not o.dup_terms and p in [t[0] for t in q.terms]:
                        continue
                    q.terms.append((p, self.op_for(f, o.hashterms, q.type == "count")))
            if q.type == "search" and not q.terms:
                continue
            if ps and r.random() < .4 and q.type != "count":
                for p, f in r.sample(ps, min(len(ps), r.choice((1, 1, 2, 2, 3, 4)))):
                    if f.type == "password":
                        continue
                    q.order.append((p, r.choice(("asc", "desc"))))
            x = r.random()
            if x < .3 and q.type != "count":
                q.limit = r.choice((1, 2, 3, 10))
                if r.random() < .4:
                    q.offset = r.choice((1, 2))
            elif x < .33 and o.offset_only and q.type != "count":
                q.offset = 1
            if q.type == "search" and not q.limit:
                if o.search_unique_only or r.random() < .8:
                    q.limit = 1
            haspass = any(self.c_path(c, s, p).type == "password" and op in ("eq", "neq") for p, op in q.terms)
            y = r.random()
            if o.group and y < .12 and not haspass:
                g = [(p, f) for p, f in ps if not f.null and f.type != "password"]
                pairs = [(a, b) for a in g for b in g if a[0][:-1] == b[0][:-1] and a[0] != b[0]]
                if pairs:
                    a, b = r.choice(pairs)
                    q.group = (a[0], r.choice(("maxrow", "minrow")), b[0])
            elif o.distinct and y < .24 and not haspass and q.type != "search":
                sp = self.spaths(c, s)
                q.distinct = r.choice(sp) if sp and r.random() < .6 else ()
            if r.random() < o.named:
                q.name = nm.new()
            else:
                sig = (q.type, tuple(q.terms))
                # the generated functions of unnamed queries are named by their terms
                sig2 = (q.type, tuple("_".join(p) + "_" + op for p, op in q.terms))
                if sig2 in seen:
                    q.name = nm.new()
                seen.add(sig2)
            q.doc = self.doc()
            s.searches.append(q)
        real = [f for f in s.fields if f.type != "struct"]
        upd = [f for f in real if not f.rowid]
        for kind, lst, rng in (("update", s.updates, o.updates), ("delete", s.deletes, o.deletes)):
            unm = Names(r, o.words)
            useen = set()
            for _ in range(r.randint(*rng)):
                u = Update([], [])
                if kind == "update":
                    if not upd:
                        continue
                    if r.random() < .75:
                        for f in r.sample(upd, min(len(upd), r.choice((1, 1, 2, 3, 4)))):
                            m = ["set", "set"]
                            if f.type in ("blob", "text", "email"):
                                m.append("concat")
                            if f.type in ("bits", "date", "enum", "epoch", "int", "real", "bit")[1:]:
                                if f.type != "bits":
                                    m += ["inc", "dec"]
                            if f.type == "password":
                                m.append("strset")
                            u.mods.append((f.name, r.choice(m)))
                cons = [f for f in real if o.blobterms or f.type != "blob"]
                if cons and r.random() < .85:
                    for _ in range(r.choice((1, 1, 2, 2, 4))):
                        f = r.choice(cons)
                        if not o.dup_terms and f.name in [x[0] for x in u.cons]:
                            continue
                        u.cons.append((f.name, self.op_for(f, False)))
                sig = (tuple(u.mods), tuple(u.cons))
                if r.random() < o.named or sig in useen:
                    u.name = unm.new()
                else:
                    useen.add(sig)
                u.doc = self.doc()
                lst.append(u)
        s.insert = r.random() < o.insert

    def c_path(self, c, s, p):
        return c.path_field(s, p)[1]

    def srole(self, c, s):
        r = self.r
        names = ["default", "all"] + [x.name for x, _ in c.all_roles()]
        ops = [("all", None), ("noexport", None)]
        ops += [(q.type, q.name) for q in s.searches if q.name]
        ops += [("update", u.name) for u in s.updates if u.name]
        ops += [("delete", u.name) for u in s.deletes if u.name]
        if s.insert:
            ops.append(("insert", None))
        ops += [("noexport", f.name) for f in s.fields]
        used = set()
        for _ in range(r.choice((0, 1, 2, 3)) if self.o.rolegrants == 3 else r.randint(1, self.o.rolegrants)):
            rs = tuple(r.sample(names, min(len(names), r.choice((1, 1, 2, 2, 3, 4)))))
            k = r.sample(ops, min(len(ops), r.choice((1, 2, 3, 4, 6))))
            # one role may be given only once to each operation
            k = [x for x in k if not any((x, y) in used for y in rs)]
            for x in k:
                for y in rs:
                    used.add((x, y))
            if k:
                s.roles.append((rs, k))


def gen_config(seed, opts=None):
    return Gen(random.Random(seed), opts).config()
