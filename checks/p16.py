#!/usr/bin/env python3
"""P16: translations are extracted, updated and merged without loss."""
import os, re, shutil, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, refparse
from common import scale
from cfg import *

NS = "{urn:oasis:names:tc:xliff:document:1.2}"
PIECES = ["a&b", "<b>", "x > y", "it's", 'say \\"hi\\"', "&amp;", "&lt;", "&#169;", "&copy;", "ünï", "☃", "日本語", "😀", "]]>",
          "<!-- c -->", "<![CDATA[x]]>", "100%", "%s%d", "two  spaces", " lead", "trail ", "tab\there", "line\nbreak", "plain",
          "Hello, world", "{brace}", "semi;", "#hash", "back\\slash", "&", "<", "''", "a", "b", "<?pi x?>", "&quot;", "&apos;"]


def phrase(r, empty=True):
    if empty and r.random() < .03:
        return ""
    if r.random() < .02:
        return "".join(r.choice(PIECES) + " " for _ in range(r.choice((300, 2000)))) + "end"
    return " ".join(r.choice(PIECES) for _ in range(r.choice((1, 1, 2, 3)))).rstrip("\\")


def shown(s):
    """A label as compared here: quotes unescaped, white-space as printed."""
    return cfg.norm_label(s.replace('\\"', '"'))


def config(r, full):
    c = Config()
    langs = r.choice((["en", "fr", "de", "x1"], ["e", "en", "enu", "fr"], ["xb", "x", "xa", "xab"]))
    pool = [phrase(r, False) for _ in range(r.choice((2, 5, 15, 40)))]

    def labs(p=1.0):
        d = {}
        if full or r.random() < p:
            d[""] = r.choice(pool)
        for k in langs:
            if r.random() < .12:
                d[k] = phrase(r, False)
        return d
    n = [0]

    def name():
        n[0] += 1
        return r.choice("abcdefgh") + r.choice("uvwxyz") + "zq%d" % n[0]
    for _ in range(r.choice((0, 1, 1, 2, 3))):
        e = Enum(name(), [Item(name(), k if r.random() < .5 else None, None, labs(.9)) for k in range(r.choice((1, 2, 4, 8)))])
        if r.random() < .5:
            e.isnull = labs(.95)
        c.enums.append(e)
    for _ in range(r.choice((0, 1, 2)) if c.enums else 1):
        c.bitfs.append(Bitf(name(), [Item(name(), k, None, labs(.9)) for k in range(r.choice((1, 2, 4)))]))
        if full or r.random() < .8:
            c.bitfs[-1].isunset, c.bitfs[-1].isnull = labs(.95), labs(.95)
    s = Struct(name())
    for e in c.enums:
        s.fields.append(Field(name(), "enum"))
        s.fields[-1].tname = e.name
    for e in c.bitfs:
        s.fields.append(Field(name(), "bits"))
        s.fields[-1].tname = e.name
    c.structs.append(s)
    return c


def labelsets(c):
    """All sets of labels in order: (labels, must have one)."""
    for e in c.enums:
        for i in e.items:
            yield i.labels, True
        if e.isnull:
            yield e.isnull, True
    for e in c.bitfs:
        for i in e.items:
            yield i.labels, True
        yield e.isunset, True
        yield e.isnull, True


def sources(c):
    return sorted({d[""] for d, _ in labelsets(c) if "" in d})


def xesc(s, r, attr=False):
    out = ""
    for ch in s:
        if ch == "&":
            out += "&amp;"
        elif ch == "<":
            out += "&lt;"
        elif ch == ">":
            out += r.choice((">", "&gt;")) if not out.endswith("]") else "&gt;"
        elif ch == '"':
            out += "&quot;" if attr else r.choice(('"', "&quot;"))
        elif ch == "'":
            out += r.choice(("'", "&apos;"))
        else:
            out += ch
    return out


def writexliff(r, lang, units, src="en", orig="x.ort"):
    """An XLIFF 1.2 document of (id, source, target) written in some style."""
    sp = r.choice(("", "\n", "\n    ", "\t"))
    o = r.choice(("", '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8"?>\n', "<!-- a comment -->\n"))
    at = ['version="1.2"'] + (['xmlns="urn:oasis:names:tc:xliff:document:1.2"'] if r.random() < .7 else [])
    r.shuffle(at)
    o += "<xliff %s>" % " ".join(at) + sp
    at = ['target-language="%s"' % xesc(lang, r, True), 'source-language="%s"' % xesc(src, r, True), 'original="%s"' % xesc(orig, r, True)]
    if r.random() < .6:
        at.append('datatype="plaintext"')
    if r.random() < .3:
        at.append("tool='other'")
    r.shuffle(at)
    o += "<file %s>" % " ".join(at) + sp
    if r.random() < .2:
        o += "<header/>" + sp
    o += "<body>" + sp
    for i, s, t in units:
        if r.random() < .1:
            o += "<!-- unit -->"
        at = ['id="%s"' % xesc(i, r, True)] + (['approved="yes"'] if r.random() < .2 else [])
        o += "<trans-unit %s>" % " ".join(at) + sp
        p = ["<source>%s</source>" % xesc(s, r), "<target%s>%s</target>" % (
            ' state="translated"' if r.random() < .2 else "", xesc(t, r))]
        if r.random() < .1:
            p.reverse()
        if r.random() < .1:
            p.insert(r.randrange(3), "<note>some note &amp; more</note>")
        o += sp.join(p) + sp + "</trans-unit>" + sp
    return o + "</body>" + sp + "</file>" + sp + "</xliff>" + r.choice(("", "\n"))


def readxliff(text):
    """(file attributes, [(id, source, target or None)]) of the tool's output."""
    x = ET.fromstring(text.encode("utf-8"))
    if x.tag != NS + "xliff" or x.get("version") != "1.2":
        raise ET.ParseError("root is %s %s" % (x.tag, x.attrib))
    f = x.findall(NS + "file")
    if len(f) != 1 or len(x) != 1 or len(f[0]) != 1 or f[0][0].tag != NS + "body":
        raise ET.ParseError("structure")
    us = []
    for u in f[0][0]:
        if u.tag != NS + "trans-unit":
            raise ET.ParseError("element " + u.tag)
        ks = [k.tag for k in u]
        if ks not in ([NS + "source"], [NS + "source", NS + "target"]):
            raise ET.ParseError("unit has %s" % ks)
        if any(len(k) for k in u):
            raise ET.ParseError("nested elements")
        us.append((u.get("id"), u[0].text or "", (u[1].text or "") if len(u) > 1 else None))
    return dict(f[0].attrib), us


def merged(c, files, copy):
    """Outcome of joining: ok, fail or either, with labels added to c."""
    sure = True
    for lang, units in files:
        lang = lang.lower()
        first = {}
        for _, s, t in units:
            first.setdefault(s, t)
        for d, _ in labelsets(c):
            if "" not in d:
                sure = False
                continue
            if d[""] in first:
                t = first[d[""]]
            elif copy:
                t = d[""]
            else:
                return "fail"
            d.setdefault(lang, t)
    return "ok" if sure else "either"


def main(chk):
    b = common.build()
    tool = os.path.join(b, "ort-xliff")
    root = common.scratch("p16")

    def run(args, d, fs, input=None):
        x = common.run([tool] + args, cwd=d, input=input)
        fs["cmd.txt"] = "ort-xliff %s\n%s" % (" ".join(args), x.err)
        if x.timeout:
            chk.unsure("timeout")
            return None
        if x.san:
            chk.violation("crash: " + x.san, x.err[-3000:], fs)
            return None
        if x.rc == 0 and re.search(r"(^|\n)[^\n\"]*:\d+:\d+: error: ", x.err):
            chk.violation("success with errors", x.err[:2000], fs)
            return None
        if x.rc == 0 and x.err.strip():
            chk.count("successes with warnings")
        return x

    def extract(r, c, d, fs, copy):
        how = r.random() < .7
        args = (["-c"] if copy else []) + (["a.ort"] if how else [])
        x = run(args, d, fs, None if how else fs["a.ort"])
        if x is None:
            return None
        if x.rc:
            return chk.violation("extraction fails", x.err, fs)
        fs["out.xlf"] = x.out
        try:
            at, us = readxliff(x.out)
        except ET.ParseError as e:
            return chk.violation("extraction isn't XLIFF: " + str(e).split(":")[0], x.out, fs)
        if at.get("original") != ("a.ort" if how else "<stdin>") or "source-language" not in at or "target-language" not in at:
            return chk.violation("extraction has other file attributes", "%r" % at, fs)
        if sorted(s for _, s, _ in us) != sources(c):
            return chk.violation("extraction isn't of all default labels once", "%r\n%r" % (us, sources(c)), fs)
        if len({i for i, _, _ in us}) != len(us):
            return chk.violation("identifiers repeat", "%r" % us, fs)
        if any(t not in ((s,) if copy else (None, "")) for _, s, t in us):
            return chk.violation("extraction has other targets", "%r" % us, fs)
        chk.count("labels extracted", len(us))
        chk.ev(("extract", copy, min(len(us), 20), tuple(sorted({ch for _, s, _ in us for ch in s if ch in "<>&'\"\\\n"}))))
        return at, us

    def several(r, c, d, fs):
        """The configuration in one or two files."""
        if r.random() < .5:
            return ["a.ort"]
        for n, k in (("b.ort", Config(enums=c.enums, bitfs=c.bitfs)), ("s.ort", Config(structs=c.structs))):
            fs[n] = cfg.to_text(k)
            with open(os.path.join(d, n), "wb") as f:
                f.write(fs[n].encode("utf-8"))
        chk.count("in two files")
        return ["b.ort", "s.ort"] if c.enums or c.bitfs else ["s.ort"]

    def join(r, c, d, fs, files, copy, kind):
        names = []
        for k, (lang, units) in enumerate(files):
            fs["t%d.xlf" % k] = t = writexliff(r, lang, units)
            with open(os.path.join(d, "t%d.xlf" % k), "wb") as f:
                f.write(t.encode("utf-8"))
            names.append("t%d.xlf" % k)
        inp = None
        args = (["-c"] if copy else []) + ["-j"]
        u = r.random()
        if len(names) == 1 and u < .4:
            args += ["a.ort"] + names
        elif u < .6:
            args += ["-x"] + names
            inp = fs["a.ort"]
        elif len(names) == 1 and u < .75:
            args += ["a.ort", "-x"]
            inp = fs["t0.xlf"]
        else:
            args += several(r, c, d, fs) + ["-x"] + names
        x = run(args, d, fs, inp)
        if x is None:
            return
        w = merged(c, files, copy)
        chk.count("%s: %s" % (kind, "fails" if x.rc else "succeeds"))
        if w != "either" and bool(x.rc) != (w == "fail"):
            return chk.violation("%s %s" % (kind, "fails" if x.rc else "succeeds with missing translations"), x.err, fs)
        if x.rc:
            if x.out.strip():
                return chk.violation("%s fails after writing" % kind, x.out, fs)
            if not x.err.strip():
                return chk.violation("%s fails silently" % kind, "", fs)
            return
        fs["out.ort"] = x.out
        try:
            g = refparse.parse(x.out)
        except refparse.Bad as e:
            return chk.violation("%s yields no ort(5): %s" % (kind, e), x.out, fs)
        for q in (g, c):
            for dd, _ in labelsets(q):
                for k in dd:
                    dd[k] = shown(dd[k])
        df = cfg.diff_canon(cfg.canon(c), cfg.canon(g))
        if df:
            key = re.sub(r"/(structs|enums|bitfs)/\w+", r"/\1", df[0].split(":")[0])
            return chk.violation("%s differs at %s" % (kind, re.sub(r"\d+", "N", key)), "\n".join(df), fs)
        chk.count("labels merged", sum(len(dd) for dd, _ in labelsets(c)))
        chk.ev((kind, copy, len(files), len(c.enums), len(c.bitfs)))
        y = common.run([os.path.join(b, "ort")], input=x.out)
        if y.rc:
            return chk.violation("%s yields a refused configuration" % kind, y.err, fs)

    def update(r, c, d, fs, units, copy):
        src, orig, lang = r.choice((("en", "x.ort", "fr"), ("en-GB", "a<b>&'\".ort", "pt-BR"), ("TODO", "<stdin>", "TODO")))
        fs["t.xlf"] = t = writexliff(r, lang, units, src, orig)
        with open(os.path.join(d, "t.xlf"), "wb") as f:
            f.write(t.encode("utf-8"))
        u = r.random()
        args = (["-c"] if copy else []) + ["-u"]
        inp = None
        if u < .5:
            args += ["a.ort", "t.xlf"]
        elif u < .75:
            args += several(r, c, d, fs) + ["-x", "t.xlf"]
        else:
            args += ["-x", "t.xlf"]
            inp = fs["a.ort"]
        x = run(args, d, fs, inp)
        if x is None:
            return
        sure = all("" in q for q, _ in labelsets(c))
        if x.rc and not sure:
            return chk.count("update: lacks labels")
        if x.rc:
            return chk.violation("update fails", x.err, fs)
        fs["out.xlf"] = x.out
        try:
            at, us = readxliff(x.out)
        except ET.ParseError as e:
            return chk.violation("update isn't XLIFF: " + str(e).split(":")[0], x.out, fs)
        if (at.get("source-language"), at.get("target-language"), at.get("original")) != (src, lang, orig):
            return chk.violation("update has other file attributes", "%r" % at, fs)
        left = list(us)
        for q in units:
            if q not in left:
                return chk.violation("update loses a translation", "%r\n%r" % (q, us), fs)
            left.remove(q)
        new = [s for s in sources(c) if s not in {s for _, s, _ in units}]
        if sorted(s for _, s, _ in left) != new:
            return chk.violation("update doesn't add the new labels", "%r\n%r" % (left, new), fs)
        ids = [i for i, _, _ in us]
        for i, s, t in left:
            if ids.count(i) > 1:
                return chk.violation("identifiers repeat", "%r" % us, fs)
            if t not in ((s,) if copy else (None, "")):
                return chk.violation("update has other targets", "%r %r" % (s, t), fs)
        chk.count("labels updated", len(left))
        chk.count("labels kept", len(units))
        chk.ev(("update", copy, min(len(units), 20), min(len(left), 20)))

    def bad(r, c, d, fs, units):
        t = writexliff(r, "fr", units)
        k = r.choice(("version", "noversion", "target-language", "source-language", "original", "id", "nosource", "cut", "element",
                      "file", "language", "bytes", "notarget"))
        was = t
        if k == "version":
            t = t.replace('version="1.2"', 'version="%s"' % r.choice(("1.1", "2.0", "1.20", "")))
            t = t.replace('<?xml version="%s"' % t, "")
        elif k == "noversion":
            t = t.replace(' version="1.2"', "")
        elif k in ("target-language", "source-language", "original"):
            t = re.sub(r'\s%s="[^"]*"' % k, "", t)
        elif k == "id":
            t = re.sub(r'\sid="[^"]*"', "", t, count=1)
        elif k == "nosource":
            t = re.sub(r"<source>[^<]*</source>", "", t, count=1)
        elif k == "notarget":
            t = re.sub(r"<target[^>]*>[^<]*</target>", "", t, count=1)
        elif k == "cut":
            e = t.index("</xliff>")
            t = t[:r.randrange(len(t[:e]))]
        elif k == "element":
            t = t.replace("<source>", "<source><b>x</b>", 1)
        elif k == "file":
            t = re.sub(r"<file [^>]*>", "", t).replace("</file>", "")
        elif k == "language":
            t = t.replace('target-language="fr"', 'target-language="%s"' % r.choice(("", "1fr", "fr-CA", "fr.ca", "f r", "fr;", "é")))
        elif k == "bytes":
            t = t.replace("</body>", r.choice(("</boody>", "\x01</body>", "&nosuch;</body>", "<</body>")))
        if t == was:
            return
        fs["t.xlf"] = t
        with open(os.path.join(d, "t.xlf"), "wb") as f:
            f.write(t.encode("utf-8"))
        x = run(["-c", "-j", "a.ort", "t.xlf"], d, fs)
        if x is None:
            return
        if x.rc == 0:
            return chk.violation("malformed XLIFF is accepted: " + k, t, fs)
        if x.out.strip() or not x.err.strip():
            return chk.violation("malformed XLIFF isn't diagnosed: " + k, x.out + x.err, fs)
        chk.count("refused: " + k)
        chk.ev(("bad", k))

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        full = r.random() < .75
        c = config(r, full)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        txt = cfg.to_text(c, Style.noisy(r) if r.random() < .3 else Style())
        c = refparse.parse(txt)
        fs = {"a.ort": txt}
        with open(os.path.join(d, "a.ort"), "wb") as f:
            f.write(txt.encode("utf-8"))
        copy = r.random() < .4
        got = extract(r, c, d, fs, copy)
        if got is not None:
            src = sources(c)
            if r.random() < .2 and full:
                src = [s for s in src if r.random() < .8]
            extra = [phrase(r, False) for _ in range(r.randrange(3))]
            src = list(dict.fromkeys(src + [x for x in extra if x not in src]))
            r.shuffle(src)
            ids = r.sample(range(1, 4 * len(src) + 2), len(src))
            names = [str(n) if r.random() < .8 else "u%d" % n for n in ids]
            units = [(n, s, phrase(r, False)) for n, s in zip(names, src)]
            k = i % 4
            if k == 0:
                update(r, c, d, fs, [u for u in units if r.random() < .7], r.random() < .4)
            elif k == 1:
                bad(r, c, d, fs, units)
            elif k == 2 and copy:
                # what was extracted, with a language, merges to the same labels
                lang = r.choice(("fr", "zz", "EN", "x1", "e", "fra", "xa"))
                t = fs["out.xlf"].replace('target-language="TODO"', 'target-language="%s"' % lang)
                files = [(lang, got[1])]
                again(r, c, d, fs, t, files)
            else:
                files = []
                for _ in range(r.choice((1, 1, 2, 3))):
                    files.append((r.choice(("fr", "de", "es", "ZZ", "x9", "Fr", "f", "fra", "e", "enu", "xa", "xab")), [(n, s, phrase(r, False)) for n, s, _ in units]))
                join(r, c, d, fs, files, r.random() < .4, "merge")
        shutil.rmtree(d, ignore_errors=True)

    def again(r, c, d, fs, t, files):
        fs["t0.xlf"] = t
        with open(os.path.join(d, "t0.xlf"), "wb") as f:
            f.write(t.encode("utf-8"))
        x = run(["-j", "a.ort", "t0.xlf"], d, fs)
        if x is None:
            return
        w = merged(c, files, False)
        if x.rc and w == "ok":
            return chk.violation("merging what was extracted fails", x.err, fs)
        if x.rc:
            return
        try:
            g = refparse.parse(x.out)
        except refparse.Bad as e:
            return chk.violation("merging what was extracted yields no ort(5): %s" % e, x.out, fs)
        for q in (g, c):
            for dd, _ in labelsets(q):
                for k in dd:
                    dd[k] = shown(dd[k])
        df = cfg.diff_canon(cfg.canon(c), cfg.canon(g))
        if df:
            return chk.violation("merging what was extracted changes labels", "\n".join(df), fs)
        chk.count("extractions merged")
        chk.ev(("again", len(files[0][1])))

    common.pmap(one, range(scale(2500, 60000)))
    chk.rule = "distinct (operation, options, numbers of labels, special characters) observed"


if __name__ == "__main__":
    sys.exit(common.main("P16", main))
