#!/usr/bin/env python3
"""P22: library calls leave configurations as they are and do not interfere."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, edit, work, libdrv
from common import scale

HOW = ("file", "file", "mem", "unbuf", "dribble")
STYLES = ("cheader", "csource", "cman", "js", "nodejs", "rust", "sql", "json", "ort", "xextract", "xupdate", "audit", "dump", "msgs",
          "diff", "diffq", "sqldiff")


class Cfg:
    """One configuration: its files, whether it is well-formed, its roles."""
    def __init__(self, files, roles, role=None):
        self.files, self.roles = files, roles
        self.ok = None
        self.joins = ()


def targets(r, xl, lang, drop=0):
    """Add translations to an extracted document."""
    def f(m):
        if drop and r.random() < drop:
            return m.group(0)
        return m.group(0) + "<target>%s%d</target>" % (lang, r.randrange(99))
    t = re.sub(r"<target */>|<target>.*?</target>", "", xl, flags=re.S)
    t = re.sub(r"</source>", f, t)
    if 'target-language=' in t:
        t = re.sub(r'target-language="[^"]*"', 'target-language="%s"' % lang, t)
    else:
        t = t.replace("<file ", '<file target-language="%s" ' % lang, 1)
    return t


def main(chk):
    b, drv = libdrv.build("san")
    _, tdrv = libdrv.build("tsan")
    root = common.scratch("p22")
    seeds = work.seeds()
    names = sorted(seeds)

    def case(i):
        if chk.too_many():
            return
        r = chk.sub("case", i)
        d = os.path.join(root, "c%d" % i)
        os.makedirs(d)
        fs = {}
        cfgs = []
        n = r.choice((1, 2, 3, 4, 6))
        prev = None
        for k in range(n):
            x = r.random()
            roles = ["none", "default", "all"]
            if x < .15:
                texts = [seeds[r.choice(names)]]
                roles = ["default"]
            else:
                if prev is not None and r.random() < .5:
                    c = edit.edited(r, prev, r.choice((1, 3, 8)))[0]
                else:
                    c = gen.gen_config(r.randrange(1 << 30), gen.Opts(structs=(1, 4), roles=.6, labels=.7))
                prev = c
                def walk(l):
                    for q in l:
                        roles.append(q.name)
                        walk(q.subs)
                walk(c.roles or [])
                st = cfg.Style(rng=r) if r.random() < .5 else cfg.Style()
                texts = [work.enc(t) for t in (cfg.to_files(c, cfg.Style(rng=r), r.choice((2, 3))) if r.random() < .4 else [cfg.to_text(c, st)])]
                if r.random() < .15:
                    texts[-1] = work.mutate_tokens(r, texts[-1])
            files = []
            for j, t in enumerate(texts):
                f = "c%d%s.ort" % (k, "abc"[j])
                work.write(d, f, t)
                fs[f] = t
                files.append(f)
            cfgs.append(Cfg(files, roles))
        nrun = [0]

        def drive(exe, script, leaks=False):
            nrun[0] += 1
            return libdrv.Run(exe, b, script, d, os.path.join(d, "o%d" % nrun[0]), leaks)

        def bad(key, detail, script):
            chk.violation(key, "%s\n\nscript:\n%s" % (detail, script), dict(fs, script=script))
            return True

        def faults(run, script, what):
            """Sanitizer reports and other signs of failing."""
            if run.r.timeout:
                chk.unsure("%s: timeout" % what)
                return True
            if "ThreadSanitizer" in run.r.err and "data race" in run.r.err:
                fr = re.findall(r"#\d+ (\w+) /?\S*?(\w[\w-]*\.c):\d+", run.r.err)
                return bad("%s: data race in %s" % (what, " ".join("%s" % x[0] for x in fr[:1])), run.r.err[:6000], script)
            if run.r.san:
                return bad("%s: %s" % (what, run.r.san), run.r.err[:6000], script)
            if run.r.rc or not run.done:
                if run.r.rc == 99 and "libdrv:" in run.r.err:
                    chk.unsure("%s: driver: %s" % (what, run.r.err[:200]))
                    return True
                return bad("%s: exit %s" % (what, run.r.rc), run.r.err[:6000], script)
            for w in run.lines:
                if w[0] in ("MUTATED", "FREED", "BADSTREAM"):
                    k = [l for l in script.split("\n") if len(w) > 1 and (" op %s " % w[1]) in (" " + l)]
                    kind = k[0].split("op ")[1].split()[2] if k else "?"
                    return bad("%s: %s by %s" % (what, w[0].lower(), kind), "%s\n%s" % (w, k), script)
                if w[0] == "left" and w[2] != "0" and int(w[1]) < len(cfgs) and cfgs[int(w[1])].ok:
                    return bad("%s: configuration not freed" % what, " ".join(w), script)
                if w[0] == "watching":
                    chk.count("blocks watched", int(w[2]))
            for k, v in run.total.items():
                if run.covered.get(k, 0) != v:
                    return bad("%s: output outside of operations" % what, "%r %r" % (run.total, run.covered), script)
            return False

        def load(k, how="file"):
            c = cfgs[k]
            return ["alloc %d" % k] + ["parse %d %s %s %s" % (k, how, f, f) for f in c.files]

        solo = {}

        def alone(k, opw, joins=(), others=()):
            """The result of one operation in a process of its own."""
            key = (k, opw, joins)
            if key in solo:
                return solo[key]
            s = load(k)
            s.append("close %d" % k)
            for o in others:
                if o != k:
                    s += load(o) + ["close %d" % o]
            for t, j in enumerate(joins):
                s.append("op j%d %d %s" % (t, k, j))
            s.append("op x %d %s" % (k, opw))
            s.append("free %d" % k)
            s += ["free %d" % o for o in others if o != k]
            s = "\n".join(s) + "\n"
            run = drive(drv, s)
            if faults(run, s, "alone"):
                solo[key] = None
            else:
                solo[key] = run.ops.get("x")
                chk.count("alone")
            return solo[key]

        # which are well-formed: the tool's verdict
        for k, c in enumerate(cfgs):
            rr = common.run([common.tool(b, "ort")] + c.files, cwd=d)
            if rr.san or rr.timeout:
                return chk.unsure("ort: %s" % (rr.san or rr.timeout))
            c.ok = rr.rc == 0
            c.err = rr.err
        good = [k for k, c in enumerate(cfgs) if c.ok]
        if not good:
            return chk.count("cases without a configuration")
        # documents to translate
        xl = {}
        for k in good:
            res = alone(k, "xextract 0")
            if res is None:
                return
            if res[0] > 0:
                t = res[1].decode("utf-8", "surrogateescape")
                for q, lang in enumerate(("fr", "xx")):
                    f = "c%d.%s.xliff" % (k, lang)
                    fs[f] = work.enc(targets(r, t, lang, .2 if q else 0))
                    work.write(d, f, fs[f])
                    xl.setdefault(k, []).append(f)

        def anop(k):
            o = r.choice(STYLES)
            others = ()
            if o == "cheader":
                s = "cheader %d%s" % (r.randrange(64) | 1, r.choice(("", " DB_H")))
            elif o == "csource":
                s = "csource %d %s %d" % (r.randrange(64) | 1, r.choice(("db.h", "a.h,b.h")), r.randrange(64))
            elif o == "cman":
                s = "cman %d" % (r.randrange(32) | 1)
            elif o == "js":
                s = "js %d%s" % (r.randrange(2), r.choice((" ort", " other")))
            elif o == "nodejs":
                s = "nodejs %d" % r.randrange(16)
            elif o in ("json", "sql", "xextract"):
                s = "%s %d" % (o, r.randrange(2))
            elif o == "xupdate":
                s = "xupdate %d %s" % (r.randrange(2), r.choice(xl[k])) if k in xl else "ort"
            elif o == "audit":
                s = "audit " + r.choice(cfgs[k].roles)
            elif o in ("diff", "diffq", "sqldiff"):
                z = r.choice(good)
                if cfgs[z].joins or cfgs[k].joins:
                    return "dump", ()
                others = (z,)
                s = "%s %d%s" % (o, z, " %d" % r.randrange(2) if o == "sqldiff" else "")
            else:
                s = o
            return s, others

        pool = [(k,) + anop(k) for k in good for _ in range(r.choice((3, 6, 10)))]
        want = []
        s = ["nulls"] if r.random() < .3 else []
        cnt = [0]

        def put(k, opw, others, pre=""):
            cnt[0] += 1
            idn = "z%d" % cnt[0]
            s.append("%sop %s %d %s" % (pre, idn, k, opw))
            want.append((idn, k, opw, cfgs[k].joins, others, pre))
        # parse all of them, one file at a time in any order
        todo = {k: load(k, r.choice(HOW)) + ["close %d" % k, "op e%d %d msgs" % (k, k)] for k, c in enumerate(cfgs)}
        late = [k for k in todo if r.random() < .2]
        latecmds = {k: todo.pop(k) for k in late}
        while todo:
            k = r.choice(sorted(todo))
            s.append(todo[k].pop(0))
            if not todo[k]:
                del todo[k]
                if r.random() < .3 and cfgs[k].ok:
                    put(k, "dump", ())
        live = [k for k in good if k not in late]
        gone = set()
        for rnd in range(r.choice((1, 2, 3))):
            us = [p for p in pool if p[0] in live and all(o in live for o in p[2])]
            for _ in range(r.choice((2, 6, 12))):
                if us:
                    k, o, ot = r.choice(us)
                    put(k, o, ot)
            if latecmds and r.random() < .5:
                k = sorted(latecmds)[0]
                s.extend(latecmds.pop(k))
                if cfgs[k].ok:
                    live.append(k)
            if r.random() < .25 and xl:
                k = r.choice(sorted(xl))
                if k in live and len(cfgs[k].joins) < 2:
                    j = "xjoin %d %s" % (r.randrange(2), " ".join(r.sample(xl[k], r.choice((1, 1, 2)))))
                    put(k, j, ())
                    cfgs[k].joins += (j,)
                    pool = [p for p in pool if not (p[1].split()[0] in ("diff", "diffq", "sqldiff") and (p[0] == k or k in p[2]))]
                    put(k, "dump", ())
            if live:
                nt = r.choice((2, 3, 4))
                us = [p for p in pool if p[0] in live and all(o in live for o in p[2])]
                s.append("par %d" % nt)
                own = {}
                if latecmds:
                    k = sorted(latecmds)[0]
                    own[0] = (k, latecmds.pop(k))
                for t in range(nt):
                    if t in own:
                        k, l = own[t]
                        s.extend("@%d %s" % (t, x) for x in l)
                        if cfgs[k].ok:
                            put(k, "dump", (), "@%d " % t)
                    for _ in range(r.choice((1, 3, 6))):
                        if us:
                            k, o, ot = r.choice(us)
                            put(k, o, ot, "@%d " % t)
                s.append("join")
                for k, l in own.values():
                    if cfgs[k].ok:
                        live.append(k)
            if len(live) > 1 and r.random() < .4:
                k = r.choice(live)
                live.remove(k)
                gone.add(k)
                s.append("free %d" % k)
        parsed = [k for k in range(n) if k not in latecmds and k not in gone]
        r.shuffle(parsed)
        s.extend("free %d" % k for k in parsed)
        s = "\n".join(s) + "\n"
        # what each gives by itself
        ref = {}
        for idn, k, o, joins, others, pre in want:
            v = alone(k, o, joins, others)
            if v is None:
                return
            ref[idn] = v
        allok = all(c.ok for c in cfgs)
        for exe, what in ((drv, "asan"), (tdrv, "tsan")):
            run = drive(exe, s, leaks=exe == drv and allok and not any(v[0] <= 0 for v in ref.values()))
            if faults(run, s, what):
                continue
            st = {}
            for w in run.lines:
                if w[0] == "parse":
                    st[int(w[1])] = st.get(int(w[1]), True) and int(w[2]) != 0
                elif w[0] == "close":
                    st[int(w[1])] = st.get(int(w[1]), True) and int(w[2]) != 0
                elif w[0] == "nulls" and w[1] != "1":
                    bad("%s: writing no messages fails" % what, "", s)
            for k, v in st.items():
                if v and not cfgs[k].ok:
                    bad("%s: malformed configuration accepted" % what, "%d" % k, s)
                if not v and cfgs[k].ok:
                    bad("%s: configuration refused among others" % what, "%d" % k, s)
            for idn, k, o, joins, others, pre in want:
                got = run.ops.get(idn)
                kind = o.split()[0]
                if got is None:
                    bad("%s: no result of %s" % (what, kind), idn, s)
                elif got != ref[idn]:
                    bad("%s: %s differs from what it is alone%s" % (what, kind, " (thread)" if pre else ""),
                        "%s %d %s\nalone: %r\nhere:  %r" % (idn, k, o, ref[idn], got), s)
                chk.count("%s: operations%s" % (what, " in threads" if pre else ""))
                if kind not in ("xjoin", "xupdate", "audit", "sqldiff") and ref[idn][0] <= 0:
                    bad("%s fails" % kind, "%r" % (ref[idn],), s)
                chk.ev((k, o, joins, ref[idn][1]), sample="%s after %d others" % (o, want.index((idn, k, o, joins, others, pre))))
            for k, c in enumerate(cfgs):
                if "e%d" % k in run.ops:
                    got = run.ops["e%d" % k][1].decode("utf-8", "replace")
                    if got != c.err:
                        bad("%s: messages differ from the tool's" % what, "%r %r" % (got, c.err), s)
                    chk.count("messages of malformed configurations", not c.ok)
        # the tools give the same
        for k in r.sample(good, min(2, len(good))):
            for o, cmd in r.sample(TOOLS, 4):
                v = alone(k, o)
                if v is None:
                    return
                rr = common.run([common.tool(b, cmd[0])] + [x.replace("@", common.REPO) for x in cmd[1:]] + cfgs[k].files, cwd=d, text=False)
                if rr.rc != 0 and v[0] <= 0:
                    continue
                if rr.timeout or rr.rc:
                    chk.unsure("%s: %s" % (cmd[0], rr.err[:200]))
                    continue
                if rr.out != v[1]:
                    bad("%s differs from the library" % cmd[0], "tool: %r\nlibrary: %r" % (rr.out, v[1]), o)
                chk.count("same as tool")
                chk.ev()

    common.pmap(case, range(scale(60, 500)))
    chk.rule = "distinct operations on distinct configurations (and their translations) whose result was compared"


TOOLS = [("json 0", ["ort-json"]), ("sql 0", ["ort-sql"]), ("ort", ["ort"]), ("rust", ["ort-rust"]), ("nodejs 6", ["ort-nodejs"]),
         ("nodejs 7", ["ort-nodejs", "-v"]), ("nodejs 14", ["ort-nodejs", "-e"]), ("cheader 17 DB_H", ["ort-c-header"]),
         ("cheader 63 X_H", ["ort-c-header", "-jJvs", "-g", "X_H"]), ("csource 16 db.h 0", ["ort-c-source", "-S", "@"]),
         ("csource 30 b.h 0", ["ort-c-source", "-jJv", "-h", "b.h", "-S", "@"]), ("cman 0", ["ort-c-manpage"]),
         ("cman 14", ["ort-c-manpage", "-jJv"]), ("xextract 0", ["ort-xliff"]), ("xextract 1", ["ort-xliff", "-c"])]

if __name__ == "__main__":
    sys.exit(common.main("P22", main))
