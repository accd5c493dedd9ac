#!/usr/bin/env python3
"""P08: audits list exactly what a role may do, and never hide access."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, diffmodel, auditmodel, big
from common import scale


def main(chk):
    b = common.build()
    d = common.scratch("p08")
    text, js = os.path.join(b, "ort-audit"), os.path.join(b, "ort-audit-json")
    opts, popts = [gen.Opts(structs=(1, 6), fields=(1, 6), roles=1, queries=(0, 5), updates=(0, 3), deletes=(0, 2),
                            docs=.4, nested=.85, text=t) for t in ("wild", "plain")]

    def parse(line):
        m = re.match(r"^(\S+)\s+(\S+)\s+(\S+):(\d+):(\d+)$", line)
        return (m.group(1), m.group(2), "%s:%s" % (m.group(3), m.group(4))) if m else None

    def strip(o):
        o = json.loads(json.dumps(o))
        o["access"] = {a["name"]: a["access"] for a in o["access"]}
        for a in o["access"].values():
            for k in ("update", "delete", "count", "get", "list", "iterate"):
                a[k] = sorted(a[k])
            if "accessfrom" in a:
                a["accessfrom"] = sorted(a["accessfrom"], key=repr)
        return o

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = big.roles(r, 300) if i < 3 else gen.gen_config(r.randrange(10 ** 9), opts if i % 3 == 0 else popts)
        if c.roles is None:
            return
        P = diffmodel.Printed(c, cfg.Style(r, case=r.random() < .5, order=r.random() < .5, space=r.random() < .3),
                              ["a%d-%d.ort" % (i, k) for k in range(r.choice((1, 1, 2)))]) if plain(c) else None
        if P is None:
            t = cfg.to_text(c)
            files = ["a%d.ort" % i]
            texts = [t]
        else:
            files, texts = P.files, P.text
        for f, t in zip(files, texts):
            work.write(d, f, t)
        fs = dict(zip(files, texts))
        roles = ["all", "default", "none"] + [x.name for x, _ in c.all_roles()]
        r.shuffle(roles)
        for role in roles[:scale(3, 6)]:
            rn = role.upper() if r.random() < .2 else role
            for verb in (False, True) if P else ():
                x = common.run([text, "-r", rn] + (["-v"] if verb else []) + files, cwd=d)
                det = "role %s verbose %s\nexit %s\n%s\n%s" % (role, verb, x.rc, x.out, x.err[-1500:])
                if x.timeout:
                    return chk.unsure("timeout")
                if x.san:
                    return chk.violation("crash: " + x.san, det, fs)
                if x.rc:
                    return chk.violation("no audit of a valid configuration", det, fs)
                got = [parse(l) for l in x.out.splitlines()]
                if None in got:
                    chk.violation("malformed audit line", det, fs)
                    continue
                want = auditmodel.lines(P, role, verb)
                for k, a, z in (("missing", want, got), ("unexpected", got, want)):
                    z = list(z)
                    for l in a:
                        if l in z:
                            z.remove(l)
                        else:
                            chk.violation("audit: %s %s line" % (k, l[0]), "%r\n" % (l,) + det, fs)
                for l in got:
                    chk.count("line " + l[0])
                chk.ev((i, role, verb) if want else None, sample={"role": role, "lines": len(want)})
            sa = r.random() < .3
            x = common.run([js, "-r", rn] + (["-s"] if sa else []) + files, cwd=d)
            det = "role %s\nexit %s\n%s\n%s" % (role, x.rc, x.out, x.err[-1500:])
            if x.san:
                return chk.violation("crash: " + x.san, det, fs)
            if x.rc:
                return chk.violation("no audit of a valid configuration", det, fs)
            out = x.out
            if sa:
                m = re.match(r"^\(function\(root\) \{\n 'use strict';\n var audit = (\{.*\}) ?;\n root.audit = audit;\n"
                             r"\}\)\(this\);\n$", out, re.S)
                if not m:
                    chk.violation("malformed standalone audit", det, fs)
                    continue
                out = m.group(1)
            dup = []

            def pairs(l):
                ks = [k for k, _ in l]
                if len(set(ks)) != len(ks):
                    dup.extend(k for k in set(ks) if ks.count(k) > 1)
                return dict(l)
            try:
                got = strip(json.loads(out, object_pairs_hook=pairs))
            except (ValueError, KeyError, TypeError) as e:
                chk.violation("audit isn't valid JSON", str(e) + det, fs)
                continue
            want = auditmodel.json_model(c, role)
            for n, l in want["functions"].items():
                if len(l) > 1:
                    chk.count("functions with the same name")
                g = got["functions"].get(n)
                if g is not None and g in l:
                    l[:] = [g]
                want["functions"][n] = l[0]
            if [k for k in dup if k in want["functions"] and not any(k == n for n in want["functions"])]:
                chk.violation("duplicate keys", repr(dup) + det, fs)
            for a in want["access"].values():
                for k in ("update", "delete", "count", "get", "list", "iterate"):
                    a[k] = sorted(a[k])
                if "accessfrom" in a:
                    a["accessfrom"] = sorted(a["accessfrom"], key=repr)
            df = compare(want, got)
            for k, t in df[:5]:
                chk.violation("audit JSON: " + k, t + "\n" + det, fs)
            chk.count("functions", len(want["functions"]))
            chk.count("exported fields", sum(f["export"] for f in want["fields"].values()))
            chk.count("withheld fields", sum(not f["export"] for f in want["fields"].values()))
            chk.ev((i, role, "json"))
        bad = common.run([text, "-r", "zzznorole"] + files, cwd=d)
        if bad.rc == 0 or bad.out:
            chk.violation("audit of a role that doesn't exist", bad.out, fs)
        for f in files:
            os.unlink(os.path.join(d, f))
    common.pmap(one, range(scale(700, 12000)))
    chk.rule = "distinct (configuration, role, format) audits with content, compared line by line with an independent model"


def plain(c):
    """Can every statement be printed on one line?"""
    def docs():
        for s in c.structs:
            yield s.doc
            for o in s.fields + s.searches + s.updates + s.deletes:
                yield o.doc
        for e in c.enums + c.bitfs:
            yield e.doc
            for x in e.items:
                yield x.doc
                yield from x.labels.values()
            yield from e.isnull.values()
            yield from getattr(e, "isunset", {}).values()
        for x, _ in c.all_roles():
            yield x.doc
    return not any(x and ("\n" in x or "\r" in x) for x in docs())


def compare(a, b, path=""):
    out = []
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in b:
                out.append((path + " missing", "%s/%s" % (path, k)))
            elif k not in a:
                out.append((path + " unexpected", "%s/%s" % (path, k)))
            else:
                p = k if path == "" else path if path in ("functions", "fields") and k not in ("export", "doc", "type") \
                    else path if path == "access" else path + "." + k
                out += compare(a[k], b[k], p)
    elif a != b:
        out.append((path, "%s: expected %r got %r" % (path, a, b)))
    return out


if __name__ == "__main__":
    sys.exit(common.main("P08", main))
