#!/usr/bin/env python3
"""P13: generated validators accept what the configuration allows, no more."""
import calendar, datetime, json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, cgen, nodegen
from common import scale
from cfg import *
from p09 import firsterror

OPEN = object()         # left to the libraries below, or undocumented
BAD = None
I64 = (-2 ** 63, 2 ** 63 - 1)
CMP = {"eq": lambda a, b: a == b, "lt": lambda a, b: a < b, "gt": lambda a, b: a > b,
       "le": lambda a, b: a <= b, "ge": lambda a, b: a >= b}
LETTERS = "abcdefghijklmnopqrstuvwxyz"


def limited(f, n):
    return all(CMP[op](n, v) for op, v in f.limits)


def text(f, n, r):
    """A text of n bytes."""
    if n <= 0:
        return ""
    k = r.random()
    if k < .3 and n >= 2:
        s = "é" * (n // 2) + "x" * (n % 2)
    elif k < .4 and n >= 4:
        s = "😀" * (n // 4) + "y" * (n % 4)
    else:
        s = "".join(r.choice(LETTERS + " '\"\\<%") for _ in range(n))
    return s


def email(n):
    """A valid address of n bytes, about."""
    n = max(n, 7)
    dom = "@" + "b" * min(20, max(1, n - 6)) + ".org"
    return "a" * max(1, min(60, n - len(dom))) + dom


def values(c, f, r):
    """Inputs about the boundaries of what the field accepts."""
    out = ["", "0", "1", "abc", " ", "-", "null", "NaN"]
    t = f.type
    edges = [v for _, v in f.limits]
    if t in ("int", "epoch", "bits", "bit"):
        ns = [0, 1, -1, 2, 62, 63, 65, -63, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, I64[0], I64[1], I64[0] - 1, I64[1] + 1,
              2 ** 64 - 1, 2 ** 64, 2 ** 65, -2 ** 64, 10 ** 30, r.randrange(-10 ** 12, 10 ** 12), r.randrange(0, 64)]
        for e in edges:
            ns += [e - 1, e, e + 1, e * 10, -e]
        out += [str(n) for n in ns] + ["1.0", "1.5", "1e3", "--1", "1 2", "1x", "x1", "1,000", "١"]
    elif t == "real":
        ns = ["0.0", "-0.0", "1.5", "-1.5", "123456.789", "0.1", "3.14159265358979"]
        for e in edges:
            for x in (e, e - 1, e + 1, e - .5, e + .5, e + abs(e) * 1e-15, e - abs(e) * 1e-15):
                if abs(x) < 1e15:
                    ns.append("%.20f" % x if abs(x) < 100 else repr(float(x)))
                    ns.append(repr(float(x)))
        out += ns + ["1.5.2", "--1", "1..", "1,5", "1.5x", "x", "."]
    elif t == "date":
        ns = [0, 86400, -86400, 951782400, 4107542400]
        for e in edges:
            ns += [e - 86400, e, e + 86400, e - e % 86400, e - e % 86400 + 86400]
        for n in ns:
            if -62135596800 <= n < 253402300800:
                out.append((datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=n)).strftime("%Y-%m-%d").zfill(10))
        out += ["2023-02-29", "2024-02-29", "2023-13-01", "2023-00-10", "2023-04-31", "2023-1-1", "2023/01/01", "01-01-2023",
                "2023-01-01x", "x2023-01-01", "20230101", "2023-01", "1900-02-29", "2000-02-29", "2023-01-32", "2023-01-00"]
    elif t == "enum":
        for v in c.e(f.tname).values().values():
            out += [str(v), str(v + 1), str(v - 1), str(v) + "0", str(v) + "x"]
        out += list(c.e(f.tname).values())
    elif t == "email":
        ns = [7, 20, 60]
        for e in edges:
            ns += [e - 1, e, e + 1]
        out += [email(min(n, 80)) for n in ns if n < 100] + ["A@B.Org", "user.name@example.com", "a@", "@b.org", "a b@c.org", "a@b@c.org",
                                                            "plain", "a@b.org c@d.org", "First.LAST@Example.ORG"]
    else:
        ns = [0, 1, 2, 5, r.randrange(0, 40)]
        for e in edges:
            if e < 3000:
                ns += [e - 1, e, e + 1, e // 2, e * 2]
        out += [text(f, n, r) for n in ns]
    r.shuffle(out)
    return out


def want(c, f, s, js):
    """Value accepted for an input, BAD or OPEN."""
    t = f.type
    if t in ("int", "epoch", "bits", "bit"):
        if not re.fullmatch(r"[-+]?[0-9]+", s):
            odd = re.fullmatch(r"\s*[-+]?(0[xXoObB])?[0-9a-fA-F]+\s*", s) and re.search("[0-9]", s)
            return OPEN if odd and not re.search("[g-wy-zG-WY-Z.,]", s) and re.search(r"^\s|\s$|0[xXoObB]", s) else BAD
        if s[0] == "+" or re.match(r"-?0[0-9]", s) or s == "-0":
            return OPEN
        n = int(s)
        if t == "bit":
            if n == 64:
                return OPEN
            if not 0 <= n <= 63:
                return BAD
        elif t == "bits":
            if n > I64[1] and not js:
                return OPEN
            if not I64[0] <= n < 2 ** 64:
                return BAD
            if f.limits:
                return OPEN
            return n - 2 ** 64 if n > I64[1] else n
        elif not I64[0] <= n <= I64[1]:
            return BAD
        return n if limited(f, n) else BAD
    if t == "real":
        if not re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", s):
            return OPEN if re.fullmatch(r"\s*[-+]?[0-9]*\.?[0-9]*([eE][-+]?[0-9]+)?\s*", s) and re.search("[0-9]", s) \
                else OPEN if s.strip().lower() in ("nan", "inf", "infinity") and not js else BAD
        v = float(s)
        return v if limited(f, v) else BAD
    if t == "date":
        if not re.fullmatch(r"[0-9]{4}-[0-9]{2}-[0-9]{2}", s):
            return BAD
        y, m, d = (int(x) for x in s.split("-"))
        if not (1 <= m <= 12 and 1 <= d <= (calendar.monthrange(y, m)[1] if y else 31)):
            return BAD
        n = (datetime.date(y, m, d) - datetime.date(1970, 1, 1)).days * 86400
        return n if limited(f, n) else BAD
    if t == "enum":
        if not re.fullmatch(r"-?[0-9]+", s):
            return OPEN if re.fullmatch(r"\s*[-+]?[0-9]+\s*", s) else BAD
        if str(int(s)) != s:
            return OPEN
        return int(s) if int(s) in c.e(f.tname).values().values() else BAD
    if t == "email":
        if not re.fullmatch(r"[A-Za-z0-9.]+@[A-Za-z0-9.]+\.[A-Za-z]+", s):
            return BAD
        return s.lower() if limited(f, len(s)) else BAD
    n = len(s.encode("utf-8"))
    return s if limited(f, n) else BAD


CMAIN = r'''
#include <string.h>
static void pv(const struct kpair *p, int t) {
	switch (t) {
	case 'i': printf("%" PRId64, p->parsed.i); break;
	case 'r': pd(p->parsed.d); break;
	default: pb(p->val, p->valsz); break;
	}
}
static void tr(int idx, int (*fn)(struct kpair *), int k, int t, const char *v, size_t sz) {
	struct kpair p, q;
	int r1, r2;
	char *a = malloc(sz + 1), *b = malloc(sz + 1);
	memcpy(a, v, sz); a[sz] = '\0'; memcpy(b, v, sz); b[sz] = '\0';
	memset(&p, 0, sizeof(p)); memset(&q, 0, sizeof(q));
	p.val = a; q.val = b; p.valsz = q.valsz = sz;
	r1 = fn(&p);
	r2 = valid_keys[k].valid == NULL ? 2 : valid_keys[k].valid(&q);
	printf("R %d {\"ok\":%d,\"key\":%d,\"v\":", idx, r1 ? 1 : 0, r2 == 2 ? 2 : r2 ? 1 : 0);
	if (r1) pv(&p, t); else printf("null");
	printf(",\"w\":");
	if (r2 == 1) pv(&q, t); else printf("null");
	printf("}\n");
	free(a); free(b);
}
'''

JMAIN = r'''
import fs from 'fs';
import * as M from './ort.mjs';
process.emitWarning = () => {};
const V = M.ortvalid.ortValids;
const out = [];
out.push('K ' + JSON.stringify(Object.keys(V).sort()));
function enc(v) {
	if (v === null) return null;
	if (Buffer.isBuffer(v)) return ['buffer', v.toString('hex')];
	return [typeof v, v.toString(), Object.is(v, -0)];
}
for (const [idx, key, kind, v] of JSON.parse(fs.readFileSync('cases.json', 'utf8'))) {
	let r;
	try {
		const x = kind === 'u' ? undefined : kind === 'b' ? BigInt(v) : v;
		r = {v: enc(V[key](x))};
	} catch (e) { r = {throws: String(e)}; }
	out.push('R ' + idx + ' ' + JSON.stringify(r));
}
out.push('DONE');
fs.writeFileSync(1, out.join('\n') + '\n');
'''
JST = {"int": "bigint", "epoch": "bigint", "bit": "bigint", "bits": "bigint", "date": "bigint", "real": "number",
       "enum": "string", "text": "string", "password": "string", "email": "string", "blob": "buffer"}


def main(chk):
    b = common.build()
    root = common.scratch("p13")
    cgen.shim_obj()

    def tell(f, lang, s, got, w):
        return chk.ev((lang, f.type, tuple(sorted(op for op, _ in f.limits)), w is not BAD, shape(f, s)),
                      sample={"lang": lang, "type": f.type, "limits": f.limits, "input": s[:60], "accepted": w is not BAD})

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = gen.gen_config(r.randrange(10 ** 9), gen.Opts(structs=(1, 5), fields=(2, 10), limits=.8, roles=0, queries=(0, 1),
                                                          updates=(0, 1), deletes=(0, 0), text="plain", docs=.1, uniques=0))
        for s in c.structs:
            for f in s.fields:
                f.limits = [(op, v) for op, v in f.limits]
        d = os.path.join(root, str(i))
        os.makedirs(d)
        src = cfg.to_text(c)
        fs = {"a.ort": src}
        fields = [(s, f) for s in c.structs for f in s.fields if f.type != "struct"]
        cases = []
        for s, f in fields:
            for v in values(c, f, r):
                cases.append((s, f, v))
        if i % 3:
            try:
                cside(i, r, c, d, src, fs, fields, cases)
            except cgen.Failed as e:
                chk.violation(e.kind + (": " + firsterror(e.det) if "compile" in e.kind else ""), e.det, fs)
        if i % 3 != 1:
            try:
                jside(i, r, c, d, src, fs, fields, cases)
            except nodegen.Failed as e:
                chk.violation("Node.js: " + e.kind, e.det, fs)
        shutil.rmtree(d, ignore_errors=True)

    def cside(i, r, c, d, src, fs, fields, cases):
        cgen.generate(b, d, "a.ort", src, safe=r.random() < .3, json_=False, jsmn=False)
        L = [cgen.PRE, CMAIN]
        T = {"real": "'r'", "int": "'i'", "bit": "'i'", "bits": "'i'", "epoch": "'i'", "date": "'i'", "enum": "'i'"}
        binary = []
        for s, f in fields:
            if f.type in ("text", "password", "blob"):
                for k in (b"\xff\xfe", b"a\0b", b"\0", bytes(r.randrange(256) for _ in range(r.randrange(0, 20)))):
                    binary.append((s, f, k))
        for k, (s, f, v) in enumerate(cases + binary):
            by = v if isinstance(v, bytes) else v.encode("utf-8")
            L.append("static void f%d(void) { tr(%d, valid_%s_%s, VALID_%s_%s, %s, %s, %d); }" % (
                k, k, s.name, f.name, s.name.upper(), f.name.upper(), T.get(f.type, "'s'"), cgen.cblob(by), len(by)))
        L += ["int main(void) {", '\tprintf("R 1000000 [%d,[", (int)VALID__MAX);',
              '\tfor (int i = 0; i < VALID__MAX; i++) printf("%s\\"%s\\"", i ? "," : "", valid_keys[i].name); printf("]]\\n");',
              '\tprintf("R 1000001 ["); int n = 0;']
        for s, f in fields:
            L.append('\tprintf("%%s%%d", n++ ? "," : "", (int)VALID_%s_%s);' % (s.name.upper(), f.name.upper()))
        L.append('\tprintf("]\\n");')
        for k in range(len(cases + binary)):
            L.append("\tf%d();" % k)
        L += ['\tprintf("DONE\\n"); return 0;', "}", ""]
        cgen.compile(d, "\n".join(L))
        x = cgen.execute(d, "x")
        if x.timeout:
            return chk.unsure("timeout of a driver")
        det = "exit %s\n%s\n%s" % (x.rc, x.err[-3000:], x.out[-2000:])
        if x.san:
            return chk.violation("generated C: " + x.san, det, fs)
        res, status, flags = cgen.results(x.out)
        if "DONE" not in flags:
            return chk.violation("generated C: ends early", det, fs)
        names = ["%s-%s" % (s.name, f.name) for s, f in fields]
        n, keys = res[1000000]
        if n != len(fields) or sorted(keys) != sorted(names):
            return chk.violation("valid_keys doesn't have all fields", "%r\n%r" % (keys, names), fs)
        if [keys[x] for x in res[1000001]] != names:
            return chk.violation("valid_keys isn't ordered as enum valid_keys", "%r\n%r" % (keys, res[1000001]), fs)
        for k, (s, f, v) in enumerate(cases + binary):
            g = res.get(k)
            if isinstance(v, bytes):
                ok = limited(f, len(v)) and (f.type == "blob" or b"\0" not in v)
                w = v if ok else BAD
            else:
                w = want(c, f, v, False)
            if w is OPEN:
                continue
            e = w
            if isinstance(e, str):
                e = "#" + e.encode("utf-8").hex()
            elif isinstance(e, bytes):
                e = "#" + e.hex()
            for ok, val, how in ((g["ok"], g["v"], "valid_%s_%s" % (s.name, f.name)), (g["key"], g["w"], "valid_keys")):
                if ok == 2:                 # nothing to validate
                    ok, val = 1, "#" + (v if isinstance(v, bytes) else v.encode("utf-8")).hex()
                if f.type == "real" and val is not None:
                    val = float(val)
                h = "valid_keys" if how == "valid_keys" else "valid_x_y"
                if bool(ok) != (e is not None):
                    return chk.violation("C: %s %s what it %s (%s)" % (
                        h, "accepts" if ok else "refuses", "mustn't" if ok else "must accept", f.type),
                        "%s %r limits %r input %r" % (how, f.type, f.limits, v), fs)
                if ok and val != e:
                    return chk.violation("C: %s yields another value (%s)" % (h, f.type),
                                         "%s limits %r input %r got %r want %r" % (how, f.limits, v, val, e), fs)
            tell(f, "C", v if isinstance(v, str) else v.decode("latin-1"), g, w)
            chk.count("C %s" % ("accepts" if w is not BAD else "refuses"))

    def jside(i, r, c, d, src, fs, fields, cases):
        nodegen.generate(b, d, "a.ort", src, flags=("-v",))
        fs["ort.ts"] = open(os.path.join(d, "ort.ts"), encoding="utf-8", errors="surrogateescape").read()
        job, plan = [], []
        for s, f in fields:
            key = "%s-%s" % (s.name, f.name)
            for kind in "un":
                job.append([len(job), key, kind, None])
                plan.append((s, f, "undefined" if kind == "u" else "null", BAD))
            if f.type in ("int", "epoch", "bit"):
                for n in [0, 5, 63, -1, 1000] + [v for _, v in f.limits if abs(v) < 2 ** 50]:
                    w = want(c, f, str(n), True)
                    job.append([len(job), key, "n", n])
                    plan.append((s, f, "number %d" % n, w))
                    job.append([len(job), key, "b", str(n)])
                    plan.append((s, f, "bigint %d" % n, w))
        for s, f, v in cases:
            job.append([len(job), "%s-%s" % (s.name, f.name), "s", v])
            plan.append((s, f, v, want(c, f, v, True)))
        with open(os.path.join(d, "cases.json"), "w") as fd:
            json.dump(job, fd)
        with open(os.path.join(d, "vmain.mjs"), "w") as fd:
            fd.write(JMAIN)
        x = common.run(["node", "--no-warnings", "vmain.mjs"], cwd=d, timeout=120, cpu=60)
        if x.timeout:
            return chk.unsure("timeout of a driver")
        det = "exit %s\n%s\n%s" % (x.rc, x.err[-3000:], x.out[-2000:])
        res, keys = {}, None
        for ln in x.out.split("\n"):
            if ln.startswith("R "):
                _, k, j = ln.split(" ", 2)
                res[int(k)] = json.loads(j)
            elif ln.startswith("K "):
                keys = json.loads(ln[2:])
        if "\nDONE\n" not in x.out:
            return chk.violation("Node.js: validators can't be run", det, fs)
        if keys != sorted("%s-%s" % (s.name, f.name) for s, f in fields):
            return chk.violation("Node.js: not the validators of all fields", det, fs)
        for k, (s, f, v, w) in enumerate(plan):
            g = res[k]
            if w is OPEN:
                continue
            if "throws" in g:
                return chk.violation("Node.js: validator throws (%s)" % f.type, "%r %r\n%s" % (f, v, g["throws"]), fs)
            g = g["v"]
            if (g is None) != (w is BAD):
                return chk.violation("Node.js: %s what it %s (%s)" % (
                    "refuses" if g is None else "accepts", "must accept" if g is None else "mustn't", f.type),
                    "%s-%s limits %r input %r got %r" % (s.name, f.name, f.limits, v, g), fs)
            if g is not None:
                e = w.encode("utf-8").hex() if f.type == "blob" else w
                val = g[1]
                if g[0] != JST[f.type]:
                    return chk.violation("Node.js: value has another type (%s)" % f.type, "%r %r" % (v, g), fs)
                val = float(val) if f.type == "real" else int(val) if isinstance(w, int) else val
                if val != e:
                    return chk.violation("Node.js: yields another value (%s)" % f.type,
                                         "%s-%s limits %r input %r got %r want %r" % (s.name, f.name, f.limits, v, g, w), fs)
            tell(f, "JS", v, g, w)
            chk.count("Node.js %s" % ("accepts" if w is not BAD else "refuses"))

    common.pmap(one, range(scale(360, 5000)))
    chk.rule = "distinct (language, type, limit operators, verdict, shape of the input) observed"
    chk.assumptions = ["kcgi's and validator's own functions are stand-ins following their manuals"]


def shape(f, s):
    """Kind of input relative to the limits."""
    if f.type in ("text", "password", "blob", "email"):
        n = len(s.encode("utf-8", "surrogateescape"))
    else:
        try:
            n = float(s)
        except ValueError:
            return "no number"
    return tuple(sorted("<" if n < v else "=" if n == v else ">" for _, v in f.limits)) or "number"


if __name__ == "__main__":
    sys.exit(common.main("P13", main))
