#!/usr/bin/env python3
"""P15: the JSON representation of a configuration is the configuration."""
import os, re, shutil, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, refparse, jsonconf, work, big
from common import scale
from cfg import *

MODS = "/opt/veriftools/node/node_modules"
TSC = MODS + "/typescript/bin/tsc"
CONV = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "js", "ortjson.js")
EXTRA = ["back\\slash", "C:\\new\\table\\u0041", "\\d+\\.\\w", "a\\\\b", 'end \\" quote', "\x01\x02\x1f", "del\x7f", "\x0b vt \x0c ff",
         "\\\\\\" + '"', "</script>", "\u2028\u2029", "é\u0301", "\\/", "'\\''"]


def spice(r, c):
    """Put more kinds of text into a configuration."""
    def t(v):
        return r.choice(EXTRA) if v is not None and r.random() < .25 else v
    for e in c.enums + c.bitfs:
        e.doc = t(e.doc)
        for i in e.items:
            i.doc = t(i.doc)
            i.labels = {k: t(v) for k, v in i.labels.items()}
        e.isnull = {k: t(v) for k, v in e.isnull.items()}
    for s in c.structs:
        s.doc = t(s.doc)
        for f in s.fields:
            f.doc = t(f.doc)
            if f.type == "text" and f.default is not None:
                f.default = t(f.default)
        for q in s.searches + s.updates + s.deletes:
            q.doc = t(q.doc)
    for x, _ in c.all_roles():
        x.doc = t(x.doc)


def unq(s):
    return None if s is None else s.replace('\\"', '"')


def plain(c):
    """A configuration as in JSON: strings without escaped quotes."""
    for e in c.enums + c.bitfs:
        e.doc = unq(e.doc)
        for i in e.items:
            i.doc = unq(i.doc)
            i.labels = {k: unq(v) for k, v in i.labels.items()}
        e.isnull = {k: unq(v) for k, v in e.isnull.items()}
        if hasattr(e, "isunset"):
            e.isunset = {k: unq(v) for k, v in e.isunset.items()}
    for s in c.structs:
        s.doc = unq(s.doc)
        for f in s.fields:
            f.doc = unq(f.doc)
            if isinstance(f.default, str):
                f.default = unq(f.default)
            if f.type == "date" and isinstance(f.default, tuple):
                f.default = cfg.date_epoch(f.default)
        for q in s.searches + s.updates + s.deletes:
            q.doc = unq(q.doc)
    for x, _ in c.all_roles():
        x.doc = unq(x.doc)
    return c


def split(r, c):
    """The top-level parts of a configuration in several files."""
    n = r.choice((1, 1, 1, 2, 3))
    out = [Config() for _ in range(n)]
    for k in ("structs", "enums", "bitfs"):
        for x in getattr(c, k):
            getattr(r.choice(out), k).append(x)
    out[0].roles = c.roles
    return [x for x in out if x.structs or x.enums or x.bitfs or x.roles is not None]


def main(chk):
    b = common.build()
    tool, ort = os.path.join(b, "ort-json"), os.path.join(b, "ort")
    schema = os.path.join(common.REPO, "ort-json.ts")
    root = common.scratch("p15")
    todo, lock = [], threading.Lock()

    def gone(df):
        return re.sub(r"\d+", "N", re.sub(r"/(structs|enums|bitfs)/\w+", r"/\1", df.split(":")[0]))

    def make(r, i):
        o = gen.Opts(structs=(1, 5) if i % 3 else (1, 2), text="wild", roles=.7)
        c = big.config(r, i, 300)[1] if i < 14 else gen.gen_config(r.randrange(1 << 30), o)
        spice(r, c)
        parts = split(r, c)
        names = ["in%d.ort" % k for k in range(len(parts))]
        if r.random() < .1:
            names[0] = r.choice(("a b.ort", 'q"uote.ort', "ünï.ort", "it's.ort", "t\tab.ort", "x\\y.ort"))
        return c, dict(zip(names, [cfg.to_text(p, Style.noisy(r) if r.random() < .5 else Style()) for p in parts]))

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c, texts = make(r, i)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        for n, t in texts.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(t.encode("utf-8"))
        names = list(texts)
        std = len(names) == 1 and r.random() < .2
        x = common.run([tool] + ([] if std else names), cwd=d, input=texts[names[0]] if std else None)
        fs = dict({"in%d.ort" % k: texts[n] for k, n in enumerate(names)}, **{"out.json": x.out, "cmd.txt": repr(names)})
        try:
            if x.timeout:
                return chk.unsure("timeout")
            if x.san:
                return chk.violation("crash: " + x.san, x.err[-3000:], fs)
            if x.rc:
                y = common.run([ort] + names, cwd=d)
                if y.rc:
                    return chk.count("refused")
                return chk.violation("configuration without JSON", x.err, fs)
            try:
                rd = jsonconf.Reader(jsonconf.load(x.out), ["<stdin>"] if std else names)
                g = rd.config()
            except jsonconf.Bad as e:
                return chk.violation("JSON: " + e.key, e.what, fs)
            ref = refparse.parse("\n".join(texts.values()))
            df = cfg.diff_canon(cfg.canon(plain(ref)), cfg.canon(g))
            if df:
                return chk.violation("JSON differs at " + gone(df[0]), "\n".join(df), fs)
            where(rd, texts, std, fs)
            for k in ("structs", "enums", "bitfs"):
                chk.count(k, len(getattr(g, k)))
            chk.count("roles", len(g.all_roles()))
            chk.count("operations", sum(len(s.searches) + len(s.updates) + len(s.deletes) for s in g.structs))
            chk.count("positions", len(rd.pos))
            chk.ev(("json", tuple(sorted({(f.type, f.default is not None, f.rowid, f.null) for s in g.structs for f in s.fields}))))
            p = os.path.join(root, "%d.json" % i)
            with open(p, "wb") as f:
                f.write(x.out.encode("utf-8", "surrogateescape"))
            with lock:
                todo.append((i, p, fs))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def where(rd, texts, std, fs):
        lines = {("<stdin>" if std else n): t.encode("utf-8").split(b"\n") for n, t in texts.items()}
        for kind, names, fn, l, col in rd.pos:
            ls = lines[fn]
            if not 1 <= l <= len(ls) + 1:
                return chk.violation("line of %s beyond file" % kind, "%r" % ((names, l, col),), fs)
            if not names or (kind == "role" and names[0] in ("all", "none", "default")):
                continue
            at = ls[l - 1] if l <= len(ls) else b""
            want = names[-1].encode()
            if at[max(col - len(want), 0):col].lower() != want:
                if col == 0 and at.lower().endswith(want):
                    continue                # columns at the end of lines are known to be lost
                # positions may be anywhere in the name, or just after it
                near = at[max(col - len(want) - 1, 0):col + len(want)].lower()
                if want not in near:
                    return chk.violation("position of " + kind, "%r at %d:%d in %r" % (names, l, col, at), fs)

    def back(k):
        l = batch[k]
        lst = os.path.join(root, "list%d" % k)
        with open(lst, "w") as f:
            f.write("".join(p + "\n" for _, p, _ in l))
        x = common.run(["node", CONV, MODS + "/typescript", schema, lst], timeout=300, cpu=300)
        if x.timeout:
            return chk.unsure("converter timeout")
        if x.rc:
            return chk.violation("ort-json.ts doesn't run", x.err, {})
        for i, p, fs in l:
            if chk.too_many():
                return
            with open(p + ".back", "rb") as f:
                res, _, txt = f.read().decode("utf-8", "replace").partition("\n")
            fs = dict(fs, **{"back.ort": txt})
            if res != "ok":
                chk.violation("converting back throws", txt, fs)
                continue
            y = common.run([ort], input=txt)
            if y.timeout:
                chk.unsure("timeout")
                continue
            if y.rc:
                chk.violation("converted back is refused: " + re.sub(r"<stdin>:\d+:\d+: |\d+", "", y.err.split("error: ")[-1].split("\n")[0]),
                              y.err, fs)
                continue
            try:
                g = refparse.parse(txt)
            except refparse.Bad as e:
                chk.violation("converted back isn't ort(5): %s" % e, "", fs)
                continue
            a = refparse.parse("\n".join(v for n, v in fs.items() if re.match(r"in\d+\.ort$", n)))
            df = cfg.diff_canon(cfg.canon(a), cfg.canon(g))
            if df:
                chk.violation("converting back differs at " + gone(df[0]), "\n".join(df), fs)
                continue
            chk.count("converted back")
            chk.ev(("back", len(txt) // 200))

    def types(k):
        """Outputs have the types declared in ort-json.ts."""
        l = typed[k]
        d = os.path.join(root, "types%d" % k)
        os.makedirs(d)
        with open(schema) as f:
            t = f.read()
        for i, p, fs in l:
            with open(p, "rb") as f:
                t += "\nconst j%d: ortJson.ortJsonConfig = %s;\n" % (i, f.read().decode("utf-8", "replace").replace("\n", " "))
        with open(os.path.join(d, "a.ts"), "w") as f:
            f.write(t)
        x = common.run(["node", TSC, "--noEmit", "--strict", "--target", "es2022", "--lib", "es2022,dom", "--skipLibCheck", "a.ts"], cwd=d,
                       timeout=300, cpu=300)
        if x.timeout:
            return chk.unsure("tsc timeout")
        n = t.split("\n")
        for m in re.finditer(r"^a\.ts\((\d+),\d+\): error (TS\d+): (.*)", x.out, re.M):
            w = re.match(r"const j(\d+)", n[int(m.group(1)) - 1])
            fs = {}
            for i, p, q in l:
                if w and int(w.group(1)) == i:
                    fs = q
            chk.violation("type: " + re.sub(r"'[^']*'", "_", m.group(2) + " " + m.group(3))[:80], m.group(0)[:2000], fs)
            return
        if x.rc:
            raise common.CannotDecide("tsc: " + x.out[:500] + x.err[:500])
        chk.count("type-checked", len(l))
        for i, p, fs in l:
            chk.ev(("typed", i))

    common.pmap(one, range(scale(1500, 40000)))
    todo.sort()
    batch = [todo[k::8] for k in range(8) if todo[k::8]]
    common.pmap(back, range(len(batch)))
    some = todo[:scale(400, 4000)]
    typed = [some[k::8] for k in range(8) if some[k::8]]
    common.pmap(types, range(len(typed)))
    shutil.rmtree(root, ignore_errors=True)
    chk.rule = "distinct (kinds of fields, sizes, type-checked documents) observed"


if __name__ == "__main__":
    sys.exit(common.main("P15", main))
