#!/usr/bin/env python3
"""P24: messages are about the right place."""
import difflib, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, invalid, raw, work
from common import scale

TOOLS = ("ort-c-header", "ort-c-manpage", "ort-c-source", "ort-json", "ort-nodejs", "ort-rust", "ort-sql", "ort-javascript")

# messages for these are placed elsewhere in the statement that changed
WHOLE = {"default action without null or default", "nullify on a field that is never null", "roles on an insert that is not there",
         "roles on an unknown operation", "bit index used twice", "enum value used twice", "query name used twice", "two rowids",
         "two role blocks", "unique combination given twice", "limit given twice", "group without aggregate", "unique over one field",
         "empty bitfield", "empty enumeration"}
# messages for these are placed at the structure
ENCLOSING = {"unknown enumeration", "unknown bitfield", "structure containing itself",
             "roles on an insert that is not there", "roles on an unknown operation"}
# ... and these where the name is defined
NAMED = {"role given twice to an operation"}
# a statement as such is wrong
FIRST = {"insert given twice", "unique combination given twice", "two role blocks", "role given twice to an operation"}
# what's wrong there may show later
SYNTAX = {"stray token", "missing punctuation", "unknown statement", "underscore or non-ASCII identifier"}
# only one place is at fault
SINGLE = {"reference to unknown field", "reference to unknown structure", "query on an unknown field", "update of an unknown field",
          "delete by an unknown field", "unique over an unknown field", "unknown role assigned", "unknown operator", "unknown modifier",
          "unknown limit operator", "enum value out of range", "bit index out of range", "reserved identifier", "default of another type"}


def main(chk):
    b = common.build()
    root = common.scratch("p24")
    seeds = work.seeds()
    names = sorted(seeds)
    rules = list(invalid.RULES)

    def run(d, tool, files, texts):
        for f, t in zip(files, texts):
            work.write(d, f, t)
        a = work.argv(b, tool)
        return common.run(a + list(files), cwd=d)

    class Odd(Exception):
        pass

    def parse(err, files, texts, fs):
        """Messages: (file, token, severity, text with tokens for positions)."""
        wh = {f: raw.Where(t) for f, t in zip(files, texts)}
        out = []
        pat = "|".join(re.escape(f) for f in files)

        def at(f, l, c, m):
            k = wh[f].tok(int(l), int(c))
            if k is None:
                chk.violation("position at no token", "%s\n%s" % (m, err), fs)
                raise Odd()
            return k
        for m in err.split("\n"):
            if not m:
                continue
            g = re.match("(%s):(\\d+):(\\d+): (warning|error|fatal): (.*)$" % pat, m)
            if g is None:
                g = re.match("(%s): (warning|error|fatal): (.*)$" % pat, m)
                if g:
                    out.append((g.group(1), None, g.group(2), g.group(3).lower()))
                    continue
                g = re.match("(warning|error|fatal): (.*)$", m)
                if g:
                    out.append((None, None, g.group(1), g.group(2).lower()))
                    continue
                out.append((None, None, "?", m))
                continue
            f, l, c, sev, t = g.groups()
            t = re.sub("(%s):(\\d+):(\\d+)" % pat, lambda q: "%s:<%s>" % (q.group(1), at(q.group(1), q.group(2), q.group(3), m)), t)
            out.append((f, at(f, l, c, m), sev, t.lower()))
        return out

    def case(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        try:
            one(r, d)
        except (raw.Odd, Odd):
            chk.count("not divided in tokens")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def one(r, d):
        x = r.random()
        rule = None
        if x < .5:
            rule = r.choice(rules)
            c = gen.gen_config(r.randrange(1 << 30), gen.Opts(structs=(1, 4)))
            texts = invalid.mutate(r, rule, c, r.choice((1, 1, 2, 3)))
            if texts is None:
                return chk.count("rule not applicable")
            texts = [work.enc(t) for t in texts]
        elif x < .6:
            texts = [seeds[r.choice(names)]]
        else:
            c = gen.gen_config(r.randrange(1 << 30), gen.Opts(structs=(1, 4)))
            texts = [work.enc(t) for t in (cfg.to_files(c, cfg.Style(rng=r), r.choice((2, 3))) if r.random() < .4 else [cfg.to_text(c)])]
        if x > .5 and r.random() < .6:
            k = r.randrange(len(texts))
            texts[k] = work.mutate_tokens(r, texts[k])
        files = ["in%s.ort" % "abc"[k] for k in range(len(texts))]
        toks, glued = [], []
        for t in texts:
            sp = raw.lex(t)
            toks.append([t[s:e] for s, e in sp])
            # paths and numbers stay in one piece
            glued.append({k for k in range(1, len(sp)) if sp[k][0] == sp[k - 1][1] and b"." in (t[sp[k][0]:sp[k][1]], t[sp[k - 1][0]:sp[k - 1][1]])})
        va = [raw.spaced(r, t, g, 0) for t, g in zip(toks, glued)]
        vb = [raw.spaced(r, t, g, 1) for t, g in zip(toks, glued)]
        for v in (va, vb):
            for t, u in zip(toks, v):
                if [u[s:e] for s, e in raw.lex(u)] != t:
                    return chk.count("not divided in tokens")
        fs = {}
        for k, f in enumerate(files):
            fs["a-" + f], fs["b-" + f] = va[k], vb[k]
        res = []
        for v in (va, vb):
            y = run(d, "ort", files, v)
            if y.timeout:
                return chk.unsure("timeout")
            if y.san:
                return chk.violation("crash: " + y.san, y.err[-3000:], fs)
            m = parse(y.err, files, v, fs)
            res.append((y, m))
            if (y.rc != 0) != any(w[2] in ("error", "fatal") for w in m):
                return chk.violation("exit %d, %s" % (y.rc, "no error" if y.rc else "but errors"), y.err, fs)
            if any(w[2] == "?" for w in m):
                return chk.violation("not a message", y.err, fs)
            if any(w[0] is None for w in m):
                chk.count("messages without a file")
            if any(w[0] is not None and w[1] is None for w in m):
                chk.count("messages without a line")
        (ya, ma), (yb, mb) = res
        if ma != mb:
            p = [w for w in ma if w not in mb] or [w for w in mb if w not in ma] or ["order"]
            return chk.violation("place of: " + re.sub(r"<\d+>|\d+|in[abc]\.ort", "N", p[0][3]) if p[0] != "order" else "order of messages",
                                 "%r\n%r\n%s\n%s" % (ma, mb, ya.err, yb.err), fs)
        for w in ma:
            chk.count("messages: " + w[2])
            chk.ev((w[2], re.sub(r"<\w+>|\d+|in[abc]\.ort", "N", w[3])), sample="%s at token %s of %s" % (w[3], w[1], w[0]))
        # a tool doesn't matter
        t = r.choice(TOOLS)
        y = run(d, t, files, vb)
        if y.timeout:
            return chk.unsure("timeout")
        if y.err != yb.err:
            return chk.violation("%s has other messages" % t, "%s\n%s" % (y.err, yb.err), fs)
        # without what a message is about, it doesn't appear
        errs = [w for w in ma if w[2] == "error" and w[0] is not None and w[1] is not None]
        # (structures that contain each other have many aliases before)
        errs = [w for w in errs if w[3] != "too many aliases"]
        if errs and rule is not None:
            f, k, sev, t = r.choice(errs)
            n = files.index(f)
            k = len(toks[n]) - 1 if k == "end" else k
            st = raw.statement(toks[n], k)
            if st is None:
                return chk.count("no statement")
            v = list(vb)
            left = toks[n][:st[0]] + toks[n][st[1] + 1:]
            v[n] = b" ".join(left) + b"\n"
            y = run(d, "ort", files, v)
            if y.timeout:
                return chk.unsure("timeout")
            if y.san:
                return chk.violation("crash: " + y.san, y.err[-3000:], fs)
            m = parse(y.err, files, v, fs)

            def plain(t):
                return re.sub(r"<\w+>", "", t)
            if sum(plain(w[3]) == plain(t) for w in m) >= sum(plain(w[3]) == plain(t) for w in ma):
                return chk.violation("remains without its place: " + re.sub(r"\d+", "N", plain(t)),
                                     "rule %s\nremoved %r\n%s\nthen %s" % (rule, b" ".join(toks[n][st[0]:st[1] + 1]), ya.err, y.err), fs)
            chk.count("statements removed")

    def about(i):
        """One rule is broken by a change: the message is about what changed."""
        if chk.too_many():
            return
        r = chk.sub(i + 5000000)
        rule = rules[i % len(rules)]
        if rule == "truncated input":
            return
        c = gen.gen_config(r.randrange(1 << 30), gen.Opts(structs=(1, 4)))
        text = invalid.mutate(r, rule, c, 1)
        if text is None:
            return chk.count("rule not applicable")
        base = work.enc("\n".join(invalid.render(o, cfg.Style()) for o in invalid.toks_config(c.clone(), cfg.Style())))
        text = work.enc(text[0])
        try:
            was, now = ([t[s:e] for s, e in raw.lex(t)] for t in (base, text))
        except raw.Odd:
            return chk.count("not divided in tokens")
        sp = raw.lex(text)
        glued = {k for k in range(1, len(sp)) if sp[k][0] == sp[k - 1][1]}
        text = raw.spaced(r, now, glued, i % 2)
        try:
            if [text[s:e] for s, e in raw.lex(text)] != now:
                raise raw.Odd
        except raw.Odd:
            return chk.count("not divided in tokens")
        d = os.path.join(root, "about%d" % i)
        os.makedirs(d)
        y = run(d, "ort", ["in.ort"], [text])
        shutil.rmtree(d, ignore_errors=True)
        if y.timeout:
            return chk.unsure("timeout")
        fs = {"in.ort": text, "base.ort": base}
        try:
            errs = [w for w in parse(y.err, ["in.ort"], [text], fs) if w[2] == "error" and w[0] and w[1] is not None]
        except Odd:
            return
        if not errs:
            return chk.count("messages without a line")
        changed = set()
        for op, _, _, a, z in difflib.SequenceMatcher(None, was, now, autojunk=False).get_opcodes():
            if op != "equal":
                changed |= set(range(a, z)) or {a - 1, min(a, len(now) - 1)}
                if op == "insert":
                    # it isn't known which of the same tokens it begins with
                    while a > 0 and now[a - 1] == now[z - 1]:
                        a, z = a - 1, z - 1
                        changed.add(a)
                    while z < len(now) and now[a] == now[z]:
                        changed.add(z)
                        a, z = a + 1, z + 1

        def like(x):
            return {now[x].lower(), now[own.index(own[x])].lower()}
        _, k, _, t = errs[0]
        k = len(now) - 1 if k == "end" else k
        own = raw.owners(now)
        if rule not in FIRST | SYNTAX and own.index(own[k]) == k:
            # what's wrong are names and values, not what kind of statement it is
            w = None
        elif k in changed:
            w = "what changed"
        elif rule in SYNTAX and k >= min(changed):
            w = "what follows the change"
        elif own[k] in [own[x] for x in changed] and rule in WHOLE:
            w = "the statement that changed"
        elif any(own[x][:len(own[k])] == own[k] for x in changed) and rule in ENCLOSING:
            w = "what encloses the change"
        elif rule not in SINGLE and like(k) & {z for x in changed for z in like(x)} and (
                k > max(changed) or rule in NAMED or any(int(x) in changed for x in re.findall("<(\\d+)>", t))):
            w = "the other of two"
        else:
            w = None
        if w is None:
            return chk.violation("place for: " + rule, "changed: %r\nat: %r in %r\n%s" % (
                b" ".join(now[x] for x in sorted(changed)), now[k], b" ".join(x for x, o in zip(now, own) if o == own[k]), y.err), fs)
        chk.count("about " + w)
        chk.ev((rule, w), sample="%s: about %s" % (rule, w))

    common.pmap(case, range(scale(3000, 60000)))
    common.pmap(about, range(scale(2000, 40000)))
    shutil.rmtree(root, ignore_errors=True)
    chk.rule = "distinct messages (less numbers and positions) whose place was followed"


if __name__ == "__main__":
    sys.exit(common.main("P24", main))
