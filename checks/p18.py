#!/usr/bin/env python3
"""P18: header, implementation and manual describe one C interface."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, cgen, auditmodel, mdoc
from common import scale
from cfg import *

FEAT = {"j": ["-j"], "J": ["-J"], "v": ["-v"]}
WARN = cgen.WARN + ["-Wall", "-Wno-unused", "-Werror=missing-prototypes", "-Werror=redundant-decls", "-Werror=overflow", "-Werror=uninitialized"]
OURS = re.compile(r"^(db|json|jsmn|valid)_")


def uniq(xs):
    """Arguments with distinct names: those of a manual are of fields."""
    return [x if "(*" in x else re.sub(r"(\w+)$", r"\1_%d" % k, x) for k, x in enumerate(xs)]


def flat(s):
    """Words of documentation however they are laid out in comments."""
    return re.sub(r"[\s*/]+", "", s)


class Broken(Exception):
    pass


def main(chk):
    b = common.build()
    root = common.scratch("p18")
    inc = ["-include", os.path.join(cgen.SHIM, "prelude.h"), "-I" + cgen.SHIM]

    def tool(t, args, d, fs):
        x = common.run([os.path.join(b, "ort-c-" + t)] + args, cwd=d)
        if x.timeout:
            raise common.CannotDecide("timeout")
        if x.san:
            raise Broken("crash: %s: %s" % (t, x.san), x.err)
        if x.rc:
            raise Broken("%s fails" % t, "%r: %s" % (args, x.err))
        return x.out

    def put(d, n, s):
        with open(os.path.join(d, n), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(s)

    def cc(d, args, what):
        x = common.run(["gcc"] + WARN + inc + args, cwd=d)
        if x.timeout:
            raise common.CannotDecide("gcc timeout")
        if x.rc:
            e = re.search(r"error: (.*)", x.err)
            raise Broken("%s: %s" % (what, re.sub(r"‘[^’]*’", "_", e.group(1) if e else x.err[:60])), "%r\n%s" % (args, x.err[:5000]))
        return x

    def protos(d, h, what):
        """Functions declared by a header."""
        put(d, "aux.c", "#include <sys/queue.h>\n#include <stdint.h>\n#include <stdarg.h>\n#include <stddef.h>\n#include <time.h>\n"
            "#include <kcgi.h>\n#include <kcgijson.h>\n" + "".join('#include "%s"\n' % x for x in h + h))
        cc(d, ["-fsyntax-only", "-aux-info", "aux.txt", "aux.c"], what)
        out = {}
        for l in open(os.path.join(d, "aux.txt")):
            m = re.match(r"/\* (?:\./)?([^:]+):\d+:(\w\w) \*/ extern (.*?)(\w+) (\(.*\));", l)
            if m and m.group(1) in h and "static" not in l:
                out[m.group(4)] = m.group(3).strip() + m.group(5)
        return out

    def symbols(d, objs):
        """Definitions in objects linked together, and what they lack."""
        x = common.run(["ld", "-r", "-o", "all.o"] + objs, cwd=d)
        if x.rc:
            raise Broken("implementations together: " + re.sub(r".*?(multiple definition|undefined).*", r"\1", x.err.split("\n")[0]), x.err)
        x = common.run(["nm", "-g", "all.o"], cwd=d)
        df, un = set(), set()
        for l in x.out.split("\n"):
            w = l.split()
            if len(w) >= 2:
                (un if w[-2] == "U" else df).add(w[-1])
        return df, un

    def same(want, got, what):
        if want - got:
            raise Broken("%s lacks functions" % what, ", ".join(sorted(want - got)))
        if got - want:
            raise Broken("%s has more functions" % what, ", ".join(sorted(got - want)))

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = gen.gen_config(r.randrange(1 << 30), gen.Opts(structs=(1, 4), roles=.5, text="wild" if i % 2 else "plain", docs=.5, queries=(0, 6)))
        for x in c.enums + c.bitfs + c.structs + [f for s in c.structs for f in s.fields] + [q for s in c.structs for q in s.searches + s.updates + s.deletes]:
            if x.doc is not None and r.random() < .2:
                x.doc = r.choice(("'quoted' start", "line\n'tis", "C:\\new\\(co", "a\n.Ed\n.Sh X", ".", "a\\b", "tab\n\t.indented", "x\n\n\n'y", "\\fBbold\\fP x", "\\&."))
        src = cfg.to_text(c)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        fs = {"in.ort": src}
        put(d, "in.ort", src)
        x = common.run([os.path.join(b, "ort"), "in.ort"], cwd=d)
        if x.rc:
            shutil.rmtree(d)
            return chk.count("refused")
        try:
            judge(r, c, d, fs, i)
        except Broken as e:
            chk.violation(e.args[0], e.args[1], fs)
        shutil.rmtree(d, ignore_errors=True)

    def judge(r, c, d, fs, i):
        safe = ["-s"] if r.random() < .3 else []
        feats = [k for k in "jJv" if r.random() < .7]
        fl = [x for k in feats for x in FEAT[k]]
        put(d, "db.h", tool("header", fl + safe + ["in.ort"], d, fs))
        decl = protos(d, ["db.h"], "header")
        # The documented single pair.
        put(d, "db.c", tool("source", fl + ["-S", b, "in.ort"], d, fs))
        cc(d, ["-c", "db.c", "-o", "db.o"], "implementation")
        df, un = symbols(d, ["db.o"])
        vars_ = {"valid_keys"} if "v" in feats and any(f.type != "struct" for s in c.structs for f in s.fields) else set()
        same(set(decl) | vars_, df, "implementation")
        if any(OURS.match(x) for x in un):
            raise Broken("implementation lacks what it uses", " ".join(sorted(un)))
        chk.count("functions", len(df))
        # What there must be.
        ops = set()
        for s in c.structs:
            ops |= {auditmodel.query_name(s, q) for q in s.searches}
            ops |= {auditmodel.update_name(s, u, "update") for u in s.updates} | {auditmodel.update_name(s, u, "delete") for u in s.deletes}
            if s.insert:
                ops.add("db_%s_insert" % s.name)
            if "v" in feats:
                ops |= {"valid_%s_%s" % (s.name, f.name) for f in s.fields if f.type != "struct"}
            if "j" in feats:
                ops |= {"json_%s_data" % s.name, "json_%s_obj" % s.name}
            if "J" in feats:
                ops |= {"jsmn_%s%s" % (s.name, x) for x in ("", "_array", "_clear", "_free_array")}
        if ops - set(decl):
            raise Broken("header lacks operations", ", ".join(sorted(ops - set(decl))))
        comments(c, d, feats)
        split(r, c, d, fs, feats, safe, decl, vars_)
        manual(r, c, d, fs, feats, decl, ops)
        chk.ev((tuple(feats), bool(safe), tuple(sorted({q.type for s in c.structs for q in s.searches})), i % 7,
                tuple(sorted({f.type for s in c.structs for f in s.fields}))),
               sample="%s: %d functions, %d arguments" % (" ".join(feats) or "-", len(df), sum(x.count(",") + 1 for x in decl.values())))

    def comments(c, d, feats):
        t = open(os.path.join(d, "db.h"), encoding="utf-8", errors="surrogateescape").read()
        have = flat(" ".join(re.findall(r"/\*(.*?)\*/", t, re.S)))
        for s in c.structs:
            for o in [s] + s.fields + s.searches + s.updates + s.deletes:
                seen(o, have, "comment of the header")
        for e in c.enums + c.bitfs:
            for o in [e] + e.items:
                seen(o, have, "comment of the header")

    def seen(o, have, what):
        if o.doc is not None:
            w = flat(o.doc.replace('\\"', '"'))
            chk.count("comments")
            if w not in have:
                raise Broken("%s is missing" % what, repr(o.doc))

    def split(r, c, d, fs, feats, safe, decl, vars_):
        """The same interface from several headers and implementations."""
        parts = ["d"] + feats
        groups = [[] for _ in range(r.randint(1, len(parts)))]
        for p in parts:
            r.choice(groups).append(p)
        groups = [g for g in groups if g]
        heads = []
        base = r.random() < .5
        if base:
            put(d, "base.h", tool("header", ["-Nd", "-g", "BASE_H"] + safe + ["in.ort"], d, fs))
            heads.append("base.h")
        order = sorted(range(len(groups)), key=lambda k: "d" not in groups[k])
        one_head = r.random() < .3
        if one_head:
            put(d, "all.h", tool("header", [x for k in feats for x in FEAT[k]] + safe + (["-Nb"] if base else []) + ["-g", "X%d_H" % r.randrange(9), "in.ort"], d, fs))
            heads.append("all.h")
        else:
            for n, k in enumerate(order):
                g = groups[k]
                no = ("b" if base or n else "") + ("" if "d" in g else "d")
                nn = ["-N" + no] if no and r.random() < .6 else [y for x in no for y in ("-N", x)]
                fl = [x for p in g if p != "d" for x in FEAT[p]]
                r.shuffle(fl)
                put(d, "h%d.h" % k, tool("header", nn + ["-g", "H%d_H" % k] + fl + safe + ["in.ort"], d, fs))
                heads.append("h%d.h" % k)
        got = protos(d, heads, "several headers")
        same(set(decl), set(got), "several headers")
        bad = [x for x in decl if decl[x] != got[x]]
        if bad:
            raise Broken("several headers declare otherwise", "%s: %s, not %s" % (bad[0], got[bad[0]], decl[bad[0]]))
        objs = []
        for k, g in enumerate(groups):
            dep = "".join(x for x in "djv" if x in parts)
            a = ["-h", ",".join(heads), "-I" + dep, "-S", b] + [x for p in g if p != "d" for x in FEAT[p]] + ([] if "d" in g else ["-Nd"])
            put(d, "s%d.c" % k, tool("source", a + ["in.ort"], d, fs))
            cc(d, ["-c", "s%d.c" % k, "-o", "s%d.o" % k], "implementation in parts")
            objs.append("s%d.o" % k)
        df, un = symbols(d, objs)
        same(set(decl) | vars_, df, "implementation in parts")
        chk.count("splits")
        chk.count("files of splits", len(groups) + len(heads))
        # Re-inclusion is guarded by the name given.
        for h in heads:
            t = open(os.path.join(d, h), encoding="utf-8", errors="surrogateescape").read()
            if not re.match(r"\s*#ifndef (\w+)\n#define \1\n", t) or (h == "base.h" and "BASE_H" not in t.split("\n")[0]):
                raise Broken("guard of a header", t[:200])

    def manual(r, c, d, fs, feats, decl, ops):
        t = tool("manpage", [x for k in feats for x in FEAT[k]] + ["in.ort"], d, fs)
        fs["out.3"] = t
        p = mdoc.Page(t)
        for k, l in p.faults:
            raise Broken("manual: " + k, l)
        names = [x[1] for x in p.protos]
        if len(set(names)) != len(names):
            raise Broken("manual: repeated function", " ".join(x for x in names if names.count(x) > 1))
        if set(names) - set(decl):
            raise Broken("manual: function that doesn't exist", ", ".join(sorted(set(names) - set(decl))))
        want = {x for x in ops if not x.startswith("valid_")}
        if want - set(names):
            raise Broken("manual: function is missing", ", ".join(sorted(want - set(names))))
        sq = lambda x: re.sub(r"\s+", "", x)
        got = sorted((n, sq(a)) for a, n in p.desc)
        if got != sorted((n, sq(a)) for a, n, _ in p.protos):
            k = set(got) ^ {(n, sq(a)) for a, n, _ in p.protos} or {x for x in got if got.count(x) > 1}
            raise Broken("manual: synopsis and descriptions differ", repr(sorted(k)))
        for a, n, xs in p.protos:
            t = p.tables.get(("Fn", n))
            if t is None:
                continue
            w = [re.sub(r"\s+", "", re.sub(r"\w+$", "", x) if "(*" not in x else re.sub(r"\(\*\w+\)", "(*)", x)) for x in xs]
            g = [re.sub(r"\s+|\(cast.*", "", x[-1]) for x in t if len(x) < 3 or x[-3] not in ("isnull", "notnull")]
            if g != w:
                raise Broken("manual: arguments of a description", "%s: %r, not %r" % (n, g, w))
            chk.count("documented arguments", len(w))
        put(d, "man.c", "#include <sys/queue.h>\n#include <stdint.h>\n#include <stdarg.h>\n#include <stddef.h>\n#include <time.h>\n#include <kcgi.h>\n#include <kcgijson.h>\n"
            '#include "db.h"\n' + "".join("%s %s(%s);\n" % (a, n, ", ".join(uniq(x))) for a, n, x in p.protos))
        x = common.run(["gcc", "-fsyntax-only"] + inc + ["-Wno-redundant-decls", "man.c"], cwd=d)
        if x.rc:
            e = re.search(r"error: (.*)", x.err).group(1)
            raise Broken("manual: " + re.sub(r"‘(?:db_\w+?_(insert|update|delete|get|list|iterate|count)|(jsmn|json)_\w+?(_(?:array|free_array|clear|obj|data|iterate))?|(\w+))[^’]*’",
                                             lambda m: m.group(1) or (m.group(2) and m.group(2) + (m.group(3) or "")) or m.group(4), e)[:100], x.err[:3000])
        chk.count("documented functions", len(names))

        def lines(doc):
            return [l.strip() for l in re.split(r"\n", doc.replace('\\"', '"')) if l.strip()]

        def have(key, doc):
            if key not in p.docs:
                raise Broken("manual: item is missing", repr(key))
            g = [l.strip() for l in p.docs[key]]
            w = lines(doc or "")
            if g != w:
                raise Broken("manual: text of an item", "%r: %r, not %r" % (key, g, w))
            chk.count("documented items")
        for s in c.structs:
            have(("struct " + s.name,), s.doc)
            mine = {k[1].split()[-1].lstrip("*"): k for k in p.docs if k and k[0] == "struct " + s.name and len(k) == 2}
            for f in s.fields:
                n = f.name + "_sz" if f.type == "blob" else f.name
                if n not in mine or f.name not in mine:
                    raise Broken("manual: field is missing", s.name + "." + n)
                have(mine[n], f.doc)
            l = [(auditmodel.query_name(s, q), q, ("query", k)) for k, q in enumerate(s.searches)] + \
                [(auditmodel.update_name(s, q, "update"), q, ("update", k)) for k, q in enumerate(s.updates)] + \
                [(auditmodel.update_name(s, q, "delete"), q, ("delete", k)) for k, q in enumerate(s.deletes)]
            roles = c.op_roles(s)
            for n, q, k in l + ([("db_%s_insert" % s.name, None, ("insert", 0))] if s.insert else []):
                have(("Fn", n), q.doc if q else None)
                t = p.tables.get(("Fn", n), [])
                if q is not None:
                    if k[0] == "query":
                        w = [(o, x[-1]) for x, o in q.terms]
                        g = [(x[0], x[1]) for x in t if x[0] != "-"]
                    else:
                        ms = [] if k[0] == "delete" else q.mods or [(f.name, "set") for f in s.fields if f.type != "struct" and not f.rowid]
                        w = [(["\\(<-"], auditmodel.MOD[m], x) for x, m in ms] + [(["\\(->"] * (k[0] == "update"), o, x) for x, o in q.cons]
                        g = [(x[:-3], x[-3], x[-2]) for x in t if x[-3] != "-"]
                    if g != w:
                        raise Broken("manual: conditions of a description", "%s: %r, not %r" % (n, g, w))
                    chk.count("documented conditions", len(w))
                if c.roles is None:
                    continue
                g = p.only.get(("Fn", n))
                w = {"ROLE_" + x.name for x, _ in c.all_roles() if auditmodel.holds(c, x.name, roles[k])} | {"ROLE_" + x for x in ("none", "default") if x in roles[k]}
                if not roles[k]:
                    if g is not None:
                        raise Broken("manual: roles of what no role may do", "%s: %s" % (n, g))
                elif g is None or sorted(set(g)) != sorted(w):
                    raise Broken("manual: roles", "%s: %s, not %s" % (n, g, sorted(w)))
        for e in c.enums:
            have(("enum " + e.name,), e.doc)
            for it in e.items:
                have(("enum " + e.name, "%s_%s" % (e.name.upper(), it.name)), it.doc)
        for e in c.bitfs:
            have(("enum " + e.name,), e.doc)
            for it in e.items:
                n = "%s_%s" % (e.name.upper(), it.name)
                have(("enum " + e.name, "BITF_%s, BITI_%s" % (n, n)), it.doc)
        for x, _ in c.all_roles():
            have(("enum ort_role", "ROLE_" + x.name), x.doc)

    common.pmap(one, range(scale(250, 6000)))
    shutil.rmtree(root, ignore_errors=True)
    chk.rule = ("for generated configurations: declarations as the compiler sees them, symbols of compiled implementations in one and several "
                "parts, and the parsed manual, compared with each other and the configuration; distinct: options, types and kinds of operations")


if __name__ == "__main__":
    sys.exit(common.main("P18", main))
