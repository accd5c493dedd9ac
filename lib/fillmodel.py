"""What filling objects into a document must do: written from
ort-javascript(1) and the documentation in its output."""
import base64, datetime
import cfg
from cfg import *

INTS = ("int", "bit", "bits", "epoch", "date", "enum")


def classes(e):
    return e[1].get("class", "").split()


def has(e, c):
    return c in classes(e)


def setc(e, c, on):
    l = classes(e)
    if on and c not in l:
        l.append(c)
    elif not on and c in l:
        l = [x for x in l if x != c]
    e[1]["class"] = " ".join(l)


def below(e):
    for c in e[2]:
        if not isinstance(c, str):
            yield c
            yield from below(c)


def find(e, c, inc):
    return ([e] if inc and has(e, c) else []) + [x for x in below(e) if has(x, c)]


def text(e):
    return "".join(c if isinstance(c, str) else text(c) for c in e[2])


def string(v):
    """A value in text."""
    if isinstance(v, float):
        return str(int(v)) if v == int(v) else repr(v)
    return str(v)


def exportable(f):
    return f.type != "password" and not f.noexport


def flag(e, a, on):
    if on:
        e[1][a] = a
    else:
        e[1].pop(a, None)


class Model:
    def __init__(self, c):
        self.c = c

    def nullable(self, s, f):
        return s.f(f.src).null if f.type == "struct" else f.null

    def fill(self, s, o, e, inc, cb, calls):
        """Fill object (or first of a list) into an element."""
        if isinstance(o, list):
            if not o:
                return
            o = o[0]

        def call(key, v):
            for i in range(cb.get(key, 0)):
                calls.append([e[1].get("id", ""), key, i, v])

        for f in s.fields:
            if not exportable(f) or f.name not in o:
                continue
            v, n = o[f.name], s.name + "-" + f.name
            if self.nullable(s, f):
                for x in find(e, "%s-has-%s" % (s.name, f.name), inc):
                    setc(x, "hide", v is None)
                for x in find(e, "%s-no-%s" % (s.name, f.name), inc):
                    setc(x, "hide", v is not None)
            if v is None:
                if f.type in ("bit", "bits"):
                    for x in find(e, n + "-bits-checked", inc):
                        flag(x, "checked", False)
                call(n, None)
                continue
            if f.type == "struct":
                for x in find(e, n + "-obj", inc):
                    self.fill(self.c.target(s, f), v, x, False, cb, calls)
                call(n, v)
                continue
            t = string(v)
            for x in find(e, n + "-enum-select", inc):
                for y in below(x):
                    if y[0] == "option":
                        w = y[1].get("value", " ".join(text(y).split()))
                        flag(y, "selected", w == t)
            for x in find(e, n + "-text", inc):
                x[2][:] = [t]
            for x in find(e, n + "-value", inc):
                x[1]["value"] = t
            for x in find(e, n + "-value-checked", inc):
                flag(x, "checked", x[1]["value"] == t)
            if f.type in ("date", "epoch"):
                d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(v))
                d = "%04d-%02d-%02d" % (d.year, d.month, d.day)
                for x in find(e, n + "-date-text", inc):
                    x[2][:] = [d]
                for x in find(e, n + "-date-value", inc):
                    x[1]["value"] = d
            if f.type in ("bit", "bits"):
                b = int(v) % (1 << 64)
                for x in find(e, n + "-bits-checked", inc):
                    try:
                        i = int(x[1]["value"])
                    except ValueError:
                        i = -1
                    flag(x, "checked", b == 0 if i == 0 else 0 < i <= 64 and b >> (i - 1) & 1)
            call(n, v)
        call(s.name, o)

    def fill_array(self, s, o, e, cb, calls):
        row = next(c for c in e[2] if not isinstance(c, str))
        l = [] if o is None else o if isinstance(o, list) else [o]
        setc(e, "hide", not l)
        if not l:
            return
        e[2][:] = []
        for x in l:
            r = copy.deepcopy(row)
            e[2].append(r)
            self.fill(s, x, r, True, cb, calls)

    def call(self, case, tree):
        """The calls of callbacks for a case, changing the tree."""
        s, o, calls = self.c.s(case["cls"]), case["obj"], []
        cb = {k: 2 if len(k) % 2 else 1 for k in case.get("custom") or []}
        byid = {x[1]["id"]: x for x in [tree] + list(below(tree)) if "id" in x[1]}
        e = byid.get(case["e"])
        do = case["do"]
        if do in ("fillArrayOrHide", "fillArrayOrShow"):
            t = byid.get(case["other"])
            empty = o is None or o == []
            if t is not None:
                setc(t, "hide", empty == (do == "fillArrayOrHide"))
        if e is None:
            return calls
        if do in ("fill", "fillInner"):
            self.fill(s, o, e, do == "fill", cb, calls)
        elif do in ("fillByClass", "fillInnerByClass"):
            for x in find(e, case["name"], do == "fillByClass"):
                self.fill(s, o, x, do == "fillByClass", cb, calls)
        elif do == "fillArrayByClass":
            for x in find(e, case["name"], False):
                self.fill_array(s, o, x, cb, calls)
        else:
            self.fill_array(s, o, e, cb, calls)
        return calls

    # -- labels
    def label(self, labels, lang, langs):
        """The text for a language of the configuration, or the default."""
        if lang in langs and lang in labels:
            return labels[lang]
        return labels.get("", "")

    def format(self, case, tree, langs):
        e = next(x for x in [tree] + list(below(tree)) if x[1].get("id") == case["e"])
        to = [e] if case["name"] is None else find(e, case["name"] + "-label", False)
        k = next((x for x in self.c.enums if x.name == case["cls"]), None)
        b = next((x for x in self.c.bitfs if x.name == case["cls"]), None)
        v, lang, cls = case["value"], case.get("lang"), None
        L = lambda d: self.label(d, lang, langs).replace('\\"', '"')
        if v is None:
            t, cls = L((k or b).isnull), "ort-null"
        elif k is not None:
            vals = k.values()
            t = "".join(L(i.labels) for i in k.items if vals[i.name] == int(v))
        elif int(v) == 0:
            t, cls = L(b.isunset), "ort-unset"
        else:
            n = int(v) % (1 << 64)
            t = ", ".join(x for x in (L(i.labels) for i in b.items if n >> i.value & 1) if x != "")
        for x in to:
            x[2][:] = [t]
            if cls:
                setc(x, cls, True)


def canon(t):
    """A tree without what the order of classes and empty texts say."""
    if isinstance(t, str):
        return t
    a = {k: v for k, v in t[1].items() if k != "class"}
    c = sorted(set(t[1].get("class", "").split()))
    if c:
        a["class"] = c
    kids, buf = [], ""
    for x in t[2]:
        if isinstance(x, str):
            buf += x
        else:
            if buf:
                kids.append(buf)
            buf = ""
            kids.append(canon(x))
    if buf:
        kids.append(buf)
    return [t[0], a, kids]


def differ(a, b, at=""):
    """Where canonical trees differ: (what, detail) or None."""
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else ("text", "%s: %r, not %r" % (at, b, a))
    at += "/" + a[0] + "#" + str(a[1].get("id", ""))
    if a[0] != b[0]:
        return "element", "%s: %s, not %s" % (at, b[0], a[0])
    for k in sorted(set(a[1]) | set(b[1])):
        if a[1].get(k) != b[1].get(k):
            return "attribute " + k, "%s (class %s): %s is %r, not %r" % (at, a[1].get("class"), k, b[1].get(k), a[1].get(k))
    if len(a[2]) != len(b[2]):
        return "content", "%s (class %s): has %r, not %r" % (at, a[1].get("class"), b[2], a[2])
    for x, y in zip(a[2], b[2]):
        d = differ(x, y, at)
        if d:
            return d
    return None
