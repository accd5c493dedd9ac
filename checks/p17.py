#!/usr/bin/env python3
"""P17: the generated formatters put objects into documents as documented."""
import json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import base64, common, cfg, gen, fillmodel
from common import scale
from cfg import *

MODS = "/opt/veriftools/node/node_modules"
TSC = MODS + "/typescript/bin/tsc"
RUN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "js", "jsfill.js")
TEXTS = ["", "plain", "it's", 'qu"ote', "<b>&amp;", "ünï☃", "two\nlines", "back\\slash", " padded ", "0", "null", "$&", "{}"]
LABELS = ["back\\slash", "C:\\new\\table\\u0041", "\\d+\\.\\w", "it's", "\\'", "a\\\\b", '\\"q\\"', "</script>", "${x}`y`", "\\n", "\u2028", "//", "/*",
          "first\nsecond"]
REALS = [0.5, 1.0, -3.25, 0.1, 1e6, -0.000125, 1234567.5, 3.0, -7.0]


def ints(r):
    return r.choice((0, 1, -1, 2, 5, 42, 64, 2 ** 31, -2 ** 31 - 1, 2 ** 53 - 1, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, r.randrange(-2 ** 63, 2 ** 63)))


def num(r, v):
    """An integer in JSON: either kind, if not beyond what numbers hold."""
    return v if abs(v) < 2 ** 53 and r.random() < .5 else str(v)


class Skip(Exception):
    pass


def value(r, c, f):
    t = f.type
    if t == "enum":
        vs = list(c.e(f.tname).values().values())
        return num(r, r.choice(vs) if r.random() < .8 else ints(r))
    if t in ("bit", "bits"):
        v = 0
        for _ in range(r.choice((0, 1, 1, 2, 5))):
            v |= 1 << r.choice((0, 1, 2, 5, 31, 32, 33, 61, 62, 63, r.randrange(64)))
        if t == "bits" and r.random() < .3:
            for i in c.b(f.tname).items:
                v |= 1 << i.value
        if v >> 63 and r.random() < .7:
            v -= 1 << 64
        return num(r, v)
    if t in ("epoch", "date"):
        return num(r, r.choice((0, -1, 86399, 86400, 951782400, 951868799, 951868800, 4107542399, -2203891201, r.randrange(-30000000000, 250000000000))))
    if t == "int":
        return num(r, ints(r))
    if t == "real":
        v = r.choice(REALS)
        return int(v) if v == int(v) else v
    if t == "blob":
        return base64.b64encode(bytes(r.randrange(256) for _ in range(r.choice((0, 1, 2, 3, 10))))).decode()
    return r.choice(TEXTS)


def obj(r, c, s, depth=0):
    if depth > 6:
        raise Skip
    nx, out, m = c.noexport_roles(s), {}, fillmodel.Model(c)
    for f in s.fields:
        if not fillmodel.exportable(f):
            continue
        if nx[f.name] and r.random() < .3:
            continue
        if m.nullable(s, f) and r.random() < (.3 if depth < 2 else .9):
            out[f.name] = None
        elif f.type == "struct":
            out[f.name] = obj(r, c, c.target(s, f), depth + 1)
        else:
            out[f.name] = value(r, c, f)
    return out


class Tree:
    """A document with elements for fields of a structure."""
    def __init__(self, r, c):
        self.r, self.c, self.n = r, c, 0

    def el(self, tag, cls=None, **a):
        self.n += 1
        d = {"id": "e%d" % self.n}
        cls = list(cls or [])
        if self.r.random() < .2:
            cls.append(self.r.choice(("hide", "row", "x", "text", "obj")))
        self.r.shuffle(cls)
        if cls:
            d["class"] = self.r.choice((" ", " ", "  ", "\n")).join(cls)
        d.update(a)
        return [tag, d, []]

    def vals(self, f, o):
        """Values for inputs and options: some equal the object's."""
        r = self.r
        v = o.get(f.name) if isinstance(o, dict) else None
        l = ["0", "1", "-1", "5", "other", "01", "0.5"]
        if f.type == "enum":
            l += [str(x) for x in self.c.e(f.tname).values().values()]
        if v is not None and not isinstance(v, dict) and fillmodel.string(v) != "":
            l += [fillmodel.string(v)] * 5
        return r.choice(l)

    def field(self, s, f, o, used, depth):
        r, n = self.r, s.name + "-" + f.name
        extra = []
        if r.random() < .3:
            extra.append(r.choice(("%s-has-%s", "%s-no-%s")) % (s.name, f.name))
        if r.random() < .05:
            extra.append(r.choice((n, n + "-textx", n + "-tex", "x" + n + "-text", n.upper() + "-text", n + "-Text", n + "-val", n + "-label")))
        if f.type == "struct":
            t = self.c.target(s, f)
            v = o.get(f.name) if isinstance(o, dict) else None
            if t.name in used or r.random() < .2:
                return self.el("div", extra + [n + r.choice(("-text", "-value"))] if r.random() < .3 else extra)
            e = self.el("div", extra + [n + "-obj"])
            e[2] = self.fields(t, v, used | {t.name}, depth + 1)
            return e
        k = r.randrange(8)
        if k == 0:
            e = self.el("select", extra + [n + "-enum-select"])
            for _ in range(r.randrange(4)):
                v = self.vals(f, o)
                y = self.el("option", **({"value": v} if r.random() < .8 else {}))
                y[2].append(v if "value" not in y[1] else "opt")
                if r.random() < .3:
                    y[1]["selected"] = "selected"
                if r.random() < .2:
                    g = self.el("optgroup")
                    g[2].append(y)
                    y = g
                e[2].append(y)
            return e
        if k in (1, 2):
            e = self.el(r.choice(("span", "p", "td")), extra + [n + "-text"])
            e[2] = r.choice(([], ["old"], ["old ", self.el("b"), " x"]))
            if r.random() < .2:
                e[1]["class"] += " " + n + "-value"
            return e
        if k == 3:
            return self.el("input", extra + [n + "-value"], **({"value": "old"} if r.random() < .5 else {}))
        if k == 4:
            e = self.el("input", extra + [n + "-value-checked"], type=r.choice(("checkbox", "radio")), value=self.vals(f, o))
            if r.random() < .4:
                e[1]["checked"] = "checked"
            return e
        if k == 5 and f.type in ("date", "epoch"):
            if r.random() < .5:
                e = self.el("time", extra + [n + "-date-text"])
                e[2] = ["never"]
                return e
            return self.el("input", extra + [n + "-date-value"], value="never")
        if k in (5, 6) and f.type in ("bit", "bits"):
            v = r.choice(("0", "1", "2", "3", "6", "31", "32", "33", "34", "62", "63", "64", "65", "128", "-1", "x", "2a", "1.5", str(r.randrange(65))))
            e = self.el("input", extra + [n + "-bits-checked"], type="checkbox", value=v)
            if r.random() < .4:
                e[1]["checked"] = "checked"
            return e
        e = self.el("span", extra)
        e[2] = ["kept"]
        return e

    def fields(self, s, o, used, depth=0):
        r, out = self.r, []
        if depth > 4:
            return out
        for _ in range(r.choice((0, 1, 2, 4, 7))):
            f = r.choice(s.fields)
            e = self.field(s, f, o, used, depth)
            if r.random() < .2:
                w = self.el(r.choice(("div", "tr")))
                if r.random() < .3:
                    w[2].append("text ")
                w[2].append(e)
                e = w
            out.append(e)
            if r.random() < .2:
                out.append(r.choice((" ", "and", "\n")))
        return out

    def root(self, s, o, ext=True):
        r = self.r
        f = r.choice(s.fields)
        if ext and r.random() < .5:
            e = self.field(s, f, o, {s.name}, 0)
            if e[0] in ("div", "td", "p") and not any(x.endswith("-text") or x.endswith("-obj") for x in fillmodel.classes(e)):
                e[2] += self.fields(s, o, {s.name})
            return e
        e = self.el("div")
        e[2] = self.fields(s, o, {s.name})
        return e


def case(r, c):
    s = r.choice(c.structs)
    t = Tree(r, c)
    l = [obj(r, c, s) for _ in range(r.choice((0, 1, 1, 2, 3)))]
    do = r.choice(("fill", "fill", "fill", "fillInner", "fillInner", "fillByClass", "fillInnerByClass", "fillArray", "fillArray", "fillArrayByClass",
                   "fillArrayOrHide", "fillArrayOrShow"))
    o = l[0] if len(l) == 1 and r.random() < .7 else l
    arr = do.startswith("fillArray")
    if arr and r.random() < .1:
        o = None
    first = o if isinstance(o, dict) else l[0] if l else {}
    k = {"do": do, "cls": s.name, "obj": o}
    top = t.el("div")
    top[2] = ["\n"]

    def target():
        if not arr:
            return t.root(s, first)
        e = t.el(r.choice(("ul", "table", "div")))
        e[2] = r.choice(([], ["\n"], ["text"])) + [t.root(s, first)]
        if r.random() < .3:
            e[2] += [" ", t.root(s, first), "x"]
        return e
    if do.endswith("ByClass"):
        k["name"] = "here"
        for _ in range(r.choice((0, 1, 2, 3))):
            e = target()
            e[1]["class"] = (e[1].get("class", "") + " here").strip()
            if r.random() < .3:
                w = t.el("div")
                w[2] = [e]
                e = w
            top[2].append(e)
        if do == "fillByClass" and r.random() < .2 and len(top[2]) == 1:
            top[2] += t.fields(s, first, {s.name})
            top[1]["class"] = (top[1].get("class", "") + " here").strip()
        k["e"] = top[1]["id"]
    else:
        e = target()
        top[2].append(e)
        k["e"] = e[1]["id"]
    if "Or" in do:
        e = t.el("p", ["hide"] if r.random() < .4 else [])
        top[2].append(e)
        k["other"] = e[1]["id"] if r.random() < .8 else None
    top[2] += t.fields(s, first, {s.name})
    if r.random() < .04:
        k["e"] = None
    names = [x.name for x in c.structs] + ["%s-%s" % (x.name, f.name) for x in c.structs for f in x.fields if fillmodel.exportable(f)]
    if r.random() < .6:
        k["custom"] = r.sample(names, r.randint(0, min(len(names), 6)))
    elif r.random() < .5:
        k["nocb"] = None
    k["tree"] = top
    return k


def fcase(r, c):
    x = r.choice(c.enums + c.bitfs)
    t = Tree(r, c)
    top = t.el("div")
    n = r.choice((None, "a-b", "s"))
    for _ in range(r.choice((0, 1, 2, 3))):
        e = t.el("span", ["%s-label" % n] if r.random() < .7 else [r.choice(("a-b", "s", "null-label", "a-label", "label"))])
        e[2] = r.choice((["old"], []))
        if r.random() < .3:
            w = t.el("p")
            w[2] = [e]
            e = w
        top[2].append(e)
    root = t.el("div", ["%s-label" % n] if r.random() < .2 else [])
    root[2] = [top]
    if isinstance(x, Enum):
        v = r.choice([None, 12345] + list(x.values().values()) * 3)
    else:
        v = r.choice((None, 0, 1, 1 << 63, (1 << 64) - 1, 2, r.randrange(1 << 64), sum(1 << i.value for i in x.items), sum(1 << i.value for i in x.items if r.random() < .5)))
        if v is not None and v >> 63 and r.random() < .6:
            v -= 1 << 64
    return {"do": "format", "cls": x.name, "e": top[1]["id"], "name": n, "value": v if v is None else num(r, v),
            "lang": r.choice((None, "", "en", "fr", "de", "x1", "zz", "EN")), "tree": root}


def statics(c):
    out = []
    for e in c.enums:
        v = e.values()
        out.append(({"do": "static", "cls": e.name, "names": [i.name for i in e.items]}, ["string:%d" % v[i.name] for i in e.items]))
    for b in c.bitfs:
        n, w = [], []
        for i in b.items:
            n += ["BITI_" + i.name, "BITF_" + i.name]
            w += ["number:%d" % i.value, str(1 << i.value)]
        out.append(({"do": "static", "cls": b.name, "names": n + ["BITI__MAX"]}, w + ["number:%d" % (1 + max(i.value for i in b.items))]))
    return out


# -- 64-bit numbers
def sgn(b):
    return b - (1 << 64) if b >> 63 else b


def longcase(r):
    """A chain of operations and its results."""
    def pick(u):
        k = r.randrange(6)
        if k == 0:
            v = r.choice((0, 1, 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 63 - 1))
        elif k == 1:
            v = 2 ** r.randrange(63)
        else:
            v = r.randrange(2 ** r.randrange(1, 64))
        if u:
            return r.randrange(2 ** 63, 2 ** 64) if r.random() < .3 else v
        return -v - (r.random() < .1) if r.random() < .4 else v
    u = r.random() < .25
    v = pick(u)
    how = r.randrange(8)
    start = v
    if how == 0:
        start = r.choice(("", "-", "x", "1x", "1-2", "--1", "-+1", "+1", "1.0", "0x10", " 1", "1 ", "1\n", "NaN", "Infinity", "-Infinity", None, True, [], {}))
        return {"do": "long", "start": start, "unsigned": u, "ops": []}, ["null"]
    if abs(v) < 2 ** 53 and how < 4:
        start = v + (r.choice((.25, .5, .75)) if v >= 0 else -r.choice((.25, .5))) if r.random() < .2 and abs(v) < 2 ** 40 else v
    else:
        start = str(v)
        if r.random() < .2:
            start = ("-" if v < 0 else "") + "0" * r.randrange(12) + str(abs(v))
    b = v % (1 << 64)
    out = [str(b) + "u" * u]
    ops = []
    for _ in range(r.randrange(1, 8)):
        op = r.choice(("add", "sub", "and", "or", "not", "neg", "shl", "shl", "compare", "eq", "mul", "isZero", "isOdd", "isNegative", "toNumber", "toInt"))
        a, how, uu = None, "signed", False
        mine = b if u else sgn(b)
        if op in ("add", "sub", "and", "or", "compare", "eq", "mul"):
            uu = r.random() < .25
            a = pick(uu)
            if r.random() < .2:
                a = mine if (a if uu else mine) == mine or not u else a
                uu = u
            if op == "mul":
                lim = max(1, (2 ** 63 - 1) // max(1, abs(mine)))
                uu = u
                a = r.randrange(0 if u or r.random() < .5 else -lim, lim + 1)
                if mine > 2 ** 62 or mine == -2 ** 63:
                    a = 1
            how = "unsigned" if uu else "signed"
            if abs(a) < 2 ** 53 and not uu and r.random() < .3:
                how = "number"
        elif op == "shl":
            a, how = r.randrange(64), r.choice(("signed", "number", "number"))
        w = None if a is None else a % (1 << 64)
        other = a
        ops.append([op, None if a is None else str(a), how])
        if op in ("add", "sub", "and", "or", "not", "neg", "shl", "mul"):
            z = mine * a == 0 if op == "mul" else op in ("neg", "not") and b == 0
            b = {"add": lambda: b + w, "sub": lambda: b - w, "and": lambda: b & w, "or": lambda: b | w, "not": lambda: ~b, "neg": lambda: -b,
                 "shl": lambda: b << a, "mul": lambda: b * w}[op]() % (1 << 64)
            out.append(str(b) + "u" * u)
            if z:
                break           # which sign zero has is not said
        else:
            out.append({"compare": lambda: "number:%d" % ((mine > other) - (mine < other)), "eq": lambda: "boolean:" + str(mine == other).lower(),
                        "isZero": lambda: "boolean:" + str(b == 0).lower(), "isOdd": lambda: "boolean:" + str(bool(b & 1)).lower(),
                        "isNegative": lambda: "boolean:" + str(mine < 0).lower(), "toNumber": lambda: ("float", float(mine)),
                        "toInt": lambda: "number:%d" % ((b & 0xffffffff) if u else ((b & 0xffffffff) ^ 0x80000000) - 0x80000000)}[op]())
    return {"do": "long", "start": start, "unsigned": u, "ops": ops}, out


def longeq(want, got):
    if len(want) != len(got):
        return False
    for a, b in zip(want, got):
        if isinstance(a, tuple):
            # Which neighbour a number is rounded to is not said.
            x = float(b.split(":")[1])
            if abs(x - a[1]) > abs(a[1]) * 2e-16:
                return False
        elif a.rstrip("u") != b.rstrip("u") or (a.endswith("u") != b.endswith("u") and a.rstrip("u") != "0"):
            return False
    return True


def source(r, c):
    """A module using the interfaces: correct lines and ones to refuse."""
    T = {"real": "number", "blob": "string", "text": "string", "email": "string"}

    def lit(s, skip=None, drop=(), depth=0):
        if depth > 5:
            raise Skip
        nx, out = c.noexport_roles(s), []
        for f in s.fields:
            if not fillmodel.exportable(f) or f.name in drop:
                continue
            if nx[f.name] and f.name != skip and r.random() < .5:
                continue
            if f.type == "struct":
                out.append("%s: %s" % (f.name, lit(c.target(s, f), depth=depth + 1)))
            else:
                k = T.get(f.type)
                out.append("%s: %s" % (f.name, "1.5" if k == "number" else "'x'" if k == "string" else r.choice(("'12'", "12"))))
        return "{ " + ", ".join(out) + " }"
    out, n = [], 0
    for s in c.structs:
        nx = c.noexport_roles(s)
        try:
            out.append("const v%d: ort.%sData = %s;" % (n, s.name, lit(s)))
            out.append("new ort.%s(v%d).fill(document.body);" % (s.name, n))
            out.append("new ort.%s([v%d]).fillArray(document.getElementById('x'), { '%s': function(e: HTMLElement, n: string, v: ort.%sData|null) { } });" % (s.name, n, s.name, s.name))
            for f in s.fields:
                n += 1
                no = "// @ts-expect-error\n"
                if not fillmodel.exportable(f):
                    out.append(no + "v0.%s;" % f.name if s is c.structs[0] else no + "(<ort.%sData><unknown>null).%s;" % (s.name, f.name))
                    continue
                if not nx[f.name]:
                    out.append(no + "const w%d: ort.%sData = %s;" % (n, s.name, lit(s, drop=(f.name,))))
                else:
                    out.append(no + "const w%d: {} = 'x' in new Object() ? {} : (<ort.%sData><unknown>null).%s;" % (n, s.name, f.name))
                if f.type != "struct":
                    out.append("const k%d: ort.DataCallbacks = { '%s-%s': function(e: HTMLElement, n: string, v: %s|null) { } };"
                               % (n, s.name, f.name, T.get(f.type, "string|number")))
                    bad = {"number": "string", "string": "number"}.get(T.get(f.type), "boolean")
                    out.append(no + "const b%d: %s = (<ort.%sData><unknown>null).%s!;" % (n, bad, s.name, f.name))
        except Skip:
            pass
        n += 1
    for x in c.enums + c.bitfs:
        out.append("ort.%s.format(document.body, null, '1'); ort.%s.format(document.body, 'x', null);" % (x.name, x.name))
    return "\n".join(out) + "\n"


def main(chk):
    b = common.build()
    tool, ort = os.path.join(b, "ort-javascript"), os.path.join(b, "ort")
    root = common.scratch("p17")
    todo = []
    per = scale(40, 60)

    def make(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = gen.gen_config(r.randrange(1 << 30), gen.Opts(structs=(1, 4), fields=(1, 6), queries=(0, 1), updates=(0, 1), deletes=(0, 1), roles=.6,
                                                          labels=.7, text="wild" if i % 2 else "plain", docbs=True))
        for e in c.enums + c.bitfs:
            for d in [i.labels for i in e.items] + [e.isnull] + ([e.isunset] if isinstance(e, Bitf) else []):
                for k in d:
                    if r.random() < .3:
                        d[k] = r.choice(LABELS)
        src = cfg.to_text(c)
        p = os.path.join(root, str(i))
        with open(p + ".ort", "w", encoding="utf-8") as f:
            f.write(src)
        x = common.run([tool, "-S", b, p + ".ort"])
        fs = {"in.ort": src}
        if x.timeout:
            return chk.unsure("timeout")
        if x.san:
            return chk.violation("crash: " + x.san, x.err[-3000:], fs)
        if x.rc:
            y = common.run([ort, p + ".ort"])
            if y.rc:
                return chk.count("refused")
            return chk.violation("configuration without formatter", x.err, fs)
        with open(p + ".ts", "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(x.out)
        langs = {k for e in c.enums + c.bitfs for d in [j.labels for j in e.items] + [e.isnull] + ([e.isunset] if isinstance(e, Bitf) else []) for k in d} - {""}
        cases, want = [], []
        m = fillmodel.Model(c)
        for _ in range(per):
            try:
                k = case(r, c)
            except Skip:
                continue
            cases.append(k)
            want.append(None)
        if c.enums + c.bitfs:
            for _ in range(per // 3):
                cases.append(fcase(r, c))
                want.append(None)
        for k, w in statics(c) + ([longcase(r) for _ in range(per * 2)] if i % 4 == 0 else []):
            cases.append(k)
            want.append(w)
        with open(p + ".json", "w") as f:
            json.dump(cases, f)
        todo.append((i, p, c, langs, cases, want, fs))

    def go(k):
        l = batch[k]
        lst = os.path.join(root, "list%d" % k)
        with open(lst, "w") as f:
            f.write("".join("%s.ts\t%s.json\n" % (p, p) for i, p, *_ in l))
        x = common.run(["node", RUN, MODS + "/typescript", lst], timeout=600, cpu=600)
        if x.timeout:
            return chk.unsure("node: " + str(x.timeout))
        if x.rc:
            raise common.CannotDecide("node: " + x.err[-1000:])
        for i, p, c, langs, cases, want, fs in l:
            m = fillmodel.Model(c)
            res = json.load(open(p + ".json.out", encoding="utf-8", errors="surrogateescape"))
            if isinstance(res, str):
                chk.violation("formatter does not load: " + re.sub(r"[^A-Za-z: ]+.*", "", res), res, dict(fs, **{"out.ts": open(p + ".ts", errors="replace").read()}))
                continue
            for k, w, g in zip(cases, want, res):
                judge(m, c, langs, k, w, g, fs)

    def judge(m, c, langs, k, w, g, fs):
        def bad(key, detail):
            chk.violation(key, detail, dict(fs, **{"case.json": json.dumps(k, indent=1), "got.json": json.dumps(g, indent=1)}))
        do = k["do"]
        if "bad" in g:
            return bad("%s fails" % do, g["bad"])
        g = g["ok"]
        if do == "long":
            chk.count("64-bit operations", len(k["ops"]) + 1)
            if not longeq(w, g):
                for j, (x, y) in enumerate(zip(w, g)):
                    if not longeq([x], [y]):
                        return bad("64-bit " + (k["ops"][j - 1][0] if j else "conversion"), "%r: %r, not %r" % (k, g, w))
                return bad("64-bit results", "%r: %r, not %r" % (k, g, w))
            return chk.ev(("long", tuple(o[0] for o in k["ops"][:3])))
        if do == "static":
            chk.count("constants", len(w))
            for n, x, y in zip(k["names"], w, g):
                if x != y:
                    return bad("constant of " + ("bits" if "BITI__MAX" in k["names"] else "enum"), "%s.%s is %s, not %s" % (k["cls"], n, y, x))
            return chk.ev(("static", len(w) > 3))
        tree = copy.deepcopy(k["tree"])
        if do == "format":
            m.format(k, tree, langs)
            fold = lambda t: [t[0], t[1], [cfg.norm_label(x) if isinstance(x, str) else fold(x) for x in t[2]]]
            d = fillmodel.differ(fillmodel.canon(fold(tree)), fillmodel.canon(fold(g["tree"])))
            if d:
                return bad("label: " + d[0], d[1])
            chk.count("labels")
            return chk.ev(("format", isinstance(k["value"], str), k["value"] is None, k["name"], k["lang"]))
        calls = m.call(k, tree)
        d = fillmodel.differ(fillmodel.canon(tree), fillmodel.canon(g["tree"]))
        if d:
            return bad("%s: %s" % (do, d[0]), d[1])
        key = lambda l: sorted(json.dumps(x, sort_keys=True) for x in l)
        if key(calls) != key(g["calls"]):
            return bad("%s: callbacks" % do, "%r, not %r" % (g["calls"], calls))
        for n in {x[1] for x in g["calls"]}:
            seq = [x[2] for x in g["calls"] if x[1] == n]
            if seq != ([0, 1] * len(seq))[:len(seq)] if len(n) % 2 else any(seq):
                return bad("%s: order of callbacks" % do, "%s: %r" % (n, seq))
        ch = json.dumps(fillmodel.canon(tree)) != json.dumps(fillmodel.canon(k["tree"]))
        chk.count("documents")
        chk.count("documents changed", int(ch))
        chk.count("callbacks", len(calls))
        chk.ev((do, ch, bool(calls), type(k["obj"]).__name__, tuple(sorted({x.split("-", 2)[-1] for e in fillmodel.below(k["tree"]) for x in fillmodel.classes(e)}))))

    def types(j):
        i, p, c, langs, cases, want, fs = todo[j]
        d = os.path.join(root, "t%d" % i)
        os.makedirs(d)
        t = open(p + ".ts", encoding="utf-8", errors="surrogateescape").read() + source(chk.sub("t", i), c)
        with open(os.path.join(d, "a.ts"), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(t)
        x = common.run(["node", TSC, "--noEmit", "--strict", "--target", "es2021", "--lib", "es2021,dom", "--skipLibCheck", "a.ts"], cwd=d, timeout=300, cpu=300)
        if x.timeout:
            return chk.unsure("tsc timeout")
        e = re.search(r"^a\.ts\((\d+),\d+\): error (TS\d+): (.*)", x.out, re.M)
        if e:
            n = t.split("\n")[int(e.group(1)) - 1]
            return chk.violation("type: " + re.sub(r"'[^']*'", "_", e.group(2) + " " + e.group(3))[:80], e.group(0)[:2000] + "\n" + n, dict(fs, **{"a.ts": t}))
        if x.rc:
            raise common.CannotDecide("tsc: " + x.out[:500] + x.err[:500])
        chk.count("modules type-checked")
        chk.ev(("types", i % 5))

    common.pmap(make, range(scale(240, 3000)))
    todo.sort(key=lambda x: x[0])
    batch = [todo[k::8] for k in range(8) if todo[k::8]]
    common.pmap(go, range(len(batch)))
    common.pmap(types, range(min(len(todo), scale(40, 400))))
    shutil.rmtree(root, ignore_errors=True)
    chk.rule = ("generated configurations' formatters run in an own document model; trees, callbacks, labels, constants and 64-bit "
                "results compared with a model written from ort-javascript(1); distinct: kind of call, classes in the document, "
                "kind of data, whether anything changed")


if __name__ == "__main__":
    sys.exit(common.main("P17", main))
