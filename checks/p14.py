#!/usr/bin/env python3
"""P14: JSON written and read by the generated C interface."""
import base64, json, os, random, re, shutil, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, work, dbops, dbrun, cgen, jsonmodel
from common import scale
from p09 import firsterror


class Open(Exception):
    """The reading is left open: no verdict on the outcome."""


class Bad(Exception):
    """Must be refused."""


class Raw(str):
    """A number or literal as written."""


TAIL = r'''
static struct kjsonreq jr;
/* Allocations of the generated code that fail. */
static volatile long fi_at, fi_n;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n) { return fi_at && ++fi_n == fi_at ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return fi_at && ++fi_n == fi_at ? NULL : __real_calloc(n, m); }
static unsigned char *data;
static unsigned int u4(size_t at) { unsigned int v; memcpy(&v, data + at, 4); return v; }
typedef void (*fn)(const char *, const jsmntok_t *, size_t, int);
%(fns)s
static fn fns[] = { %(tab)s };
static fn arrs[] = { %(atab)s };
typedef int (*mfn)(const char *, const jsmntok_t *, size_t);
static mfn mfns[] = { %(mtab)s };
static mfn marrs[] = { %(matab)s };
static void one(int idx, unsigned int mode, unsigned int si, unsigned int lim, unsigned int sz, const unsigned char *src) {
	char *buf = malloc(sz ? sz : 1);
	jsmn_parser p;
	jsmntok_t *t = NULL, *c;
	int n, m;
	size_t use, k;
	memcpy(buf, src, sz);
	if (sz == 0) { free(buf); buf = malloc(0); }
	printf("R %%d [", idx);
	jsmn_init(&p);
	n = jsmn_parse(&p, buf, sz, NULL, 0);
	printf("%%d", n);
	if (n > 0) {
		t = malloc(n * sizeof(jsmntok_t));
		if (n > 1) {	/* too few tokens are an error, not an overrun */
			c = malloc((n - 1) * sizeof(jsmntok_t));
			jsmn_init(&p);
			m = jsmn_parse(&p, buf, sz, c, n - 1);
			if (m > n - 1) printf(",\"toomany %%d\"", m);
			free(c);
		}
		jsmn_init(&p);
		m = jsmn_parse(&p, buf, sz, t, n);
		printf(",%%d", m);
		for (k = 0; m > 0 && k < (size_t)m; k++)
			if (t[k].start < 0 || t[k].end < t[k].start || (unsigned int)t[k].end > sz) printf(",\"badtoken\"");
		if (m > 0) {
			use = (size_t)m < lim ? (size_t)m : lim;
			c = malloc((use ? use : 1) * sizeof(jsmntok_t));
			memcpy(c, t, use * sizeof(jsmntok_t));
			printf(",");
			((mode & 1) ? arrs : fns)[si](buf, c, use, mode & 2);
			if (mode & 4) {
				long q;
				printf(",{\"nomem\": [");
				for (q = 1; q < 30; q++) {
					fi_at = q; fi_n = 0;
					m = ((mode & 1) ? marrs : mfns)[si](buf, c, use);
					if (m == -77) break;
					printf("%%s%%d", q > 1 ? "," : "", m);
				}
				printf("]}");
			}
			free(c);
		}
	}
	printf("]\n"); fflush(stdout);
	free(t); free(buf);
}
int main(int argc, char *argv[]) {
	FILE *f = fopen(argv[1], "rb");
	size_t n = 0, cap = 1 << 24, at = 0;
	int idx = 0;
	data = malloc(cap);
	n = fread(data, 1, cap, f);
	fclose(f);
	while (at + 16 <= n) {
		unsigned int sz = u4(at + 12);
		one(idx++, u4(at), u4(at + 4), u4(at + 8), sz, data + at + 16);
		at += 16 + sz;
		if (idx %% 64 == 0 && __lsan_do_recoverable_leak_check()) { printf("LEAK\n"); fflush(stdout); return 0; }
	}
	free(data);
	if (__lsan_do_recoverable_leak_check()) printf("LEAK\n");
	printf("DONE\n");
	return 0;
}
'''


def driver(c):
    fns = []
    for s in c.structs:
        ex = {"s": s.name}
        fns.append('''static void i_%(s)s(const char *b, const jsmntok_t *t, size_t n, int ex) {
	struct %(s)s *p = calloc(1, sizeof(*p));
	int rc = jsmn_%(s)s(p, b, t, n);
	printf("%%d", rc);
	if (rc > 0) { printf(","); pr_%(s)s(p); }
	if (rc > 0 && ex) {
		printf(","); fflush(stdout);
		shim_json_open(&jr, stdout); kjson_obj_open(&jr); json_%(s)s_obj(&jr, p); kjson_obj_close(&jr); shim_json_close(&jr);
		%(it)s
	}
	jsmn_%(s)s_clear(p); free(p); jsmn_%(s)s_clear(NULL);
}
static void a_%(s)s(const char *b, const jsmntok_t *t, size_t n, int ex) {
	struct %(s)s *p = (struct %(s)s *)1;
	size_t sz = 77, i;
	int rc = jsmn_%(s)s_array(&p, &sz, b, t, n);
	printf("%%d", rc);
	if (rc > 0) { printf(",["); for (i = 0; i < sz; i++) { if (i) printf(","); pr_%(s)s(&p[i]); } printf("]"); }
	if (rc > 0 && ex) {
		%(ar)s
	}
	jsmn_%(s)s_free_array(p, sz); jsmn_%(s)s_free_array(NULL, 0);
}
static int mi_%(s)s(const char *b, const jsmntok_t *t, size_t n) {
	long at = fi_at; fi_at = 0;
	struct %(s)s *p = calloc(1, sizeof(*p));
	fi_at = at;
	int rc = jsmn_%(s)s(p, b, t, n);
	fi_at = 0;
	jsmn_%(s)s_clear(p); free(p);
	return fi_n < at ? -77 : rc;
}
static int ma_%(s)s(const char *b, const jsmntok_t *t, size_t n) {
	struct %(s)s *p = (struct %(s)s *)1;
	size_t sz = 77; long at = fi_at;
	int rc = jsmn_%(s)s_array(&p, &sz, b, t, n);
	fi_at = 0;
	jsmn_%(s)s_free_array(p, sz);
	return fi_n < at ? -77 : rc;
}''' % dict(s=s.name,
            it=('printf(","); kjson_open_arr(&jr); json_%s_iterate(p, &jr); kjson_close_arr(&jr);' % s.name)
            if any(q.type == "iterate" and q.distinct is None for q in s.searches) else "",
            ar=('struct %(s)s_q q; TAILQ_INIT(&q); for (i = 0; i < sz; i++) TAILQ_INSERT_TAIL(&q, &p[i], _entries);'
                ' printf(","); shim_json_open(&jr, stdout); kjson_obj_open(&jr); json_%(s)s_array(&jr, &q); '
                'kjson_obj_close(&jr); shim_json_close(&jr);' % dict(s=s.name))
            if any(q.type == "list" and q.distinct is None for q in s.searches) else ""))
    pre = ('#define kjson_open_arr(r) do { shim_json_open((r), stdout); kjson_array_open((r)); } while (0)\n'
           '#define kjson_close_arr(r) do { kjson_array_close((r)); shim_json_close((r)); } while (0)\n')
    return "\n".join([cgen.PRE, cgen.printers(c, False), pre, TAIL % dict(
        fns="\n".join(fns), tab=", ".join("i_" + s.name for s in c.structs),
        atab=", ".join("a_" + s.name for s in c.structs), mtab=", ".join("mi_" + s.name for s in c.structs),
        matab=", ".join("ma_" + s.name for s in c.structs))])


# ---------------------------------------------------------------- reading
NUM = re.compile(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$")


def bad(x):
    raise ValueError(x)


class Reader:
    def __init__(self, c, text):
        self.c = c
        self.sur = re.search(r"\\u[dD][89a-fA-F]", text) is not None
        self.esc = "\\" in text

    def string(self, v):
        if "\0" in v or (self.sur and any(0xd800 <= ord(x) <= 0xdfff for x in v)):
            raise Open
        return v

    def value(self, s, f, v):
        t = f.type
        if t == "struct":
            if not islist(v):
                raise Bad("type of struct")
            return self.object(self.c.target(s, f), v)
        if t in ("text", "email", "password", "blob"):
            if not isstr(v):
                raise Bad("type of " + t)
            v = self.string(v)
            if t != "blob":
                return v
            if re.match(r"([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$", v) and "\n" not in v:
                r = base64.b64decode(v)
                if base64.b64encode(r).decode() == v:
                    return r
                raise Open
            if re.search(r"[^A-Za-z0-9+/=\s]", v) or re.match(r"[A-Za-z0-9+/]*$", v) and len(v) % 4 == 1:
                raise Bad("base64")
            raise Open
        if not isinstance(v, str):
            raise Bad("type of number")
        if not isinstance(v, Raw) and self.esc and not v.isascii():
            raise Open
        if not isinstance(v, Raw) and self.esc:
            raise Open                          # may be written with escapes
        if t == "real":
            if NUM.match(v) and len(v) < 100:
                if abs(float(v)) == float("inf"):
                    raise Open
                return float(v)
            if not v or not (v[0] == "-" or v[0].isdigit()) or v == "-":
                raise Bad("real")
            if re.search(r"[^0-9a-fA-FxXpPeE+.,\-iInNtTyYaA(_)]", v):
                raise Bad("real")
            raise Open
        if re.match(r"-?[0-9]+$", v) and "\n" not in v:
            if len(v) > 30:
                raise Open if v.lstrip("-")[0] == "0" else Bad("range")
            n = int(v)
            if not -2 ** 63 <= n < 2 ** 63:
                raise Bad("range")
            if t == "bit" and v[0] == "-":
                raise Open
            if t == "enum" and n not in self.c.e(f.tname).values().values():
                raise Open
            return n
        raise Bad("integer")

    def blank(self, s):
        out = {}
        for f in s.fields:
            if f.type == "struct":
                out[f.name] = None if s.f(f.src).null else self.blank(self.c.target(s, f))
            elif f.null:
                out[f.name] = None
            else:
                out[f.name] = 0.0 if f.type == "real" else b"" if f.type == "blob" else (
                    0 if f.type in cgen.INTS or f.type == "enum" else MISSING)
        return out

    def object(self, s, l):
        out = self.blank(s)
        opened = False
        seen = set()
        for k, v in l:
            f = s.f(self.string(k))
            if f is None or f.noexport:
                raise Bad("unknown name")
            if self.esc and not re.match(r"[a-z0-9_]+$", k):
                raise Open
            if v is None:
                if f.type == "struct" and s.f(f.src).null or f.null:
                    out[f.name] = None
                    continue
                raise Bad("null")
            if f.name in seen and f.type == "struct":
                opened = True                   # merged or replaced
            seen.add(f.name)
            try:
                out[f.name] = self.value(s, f, v)
            except Open:
                opened = True
        if opened:
            raise Open
        return out


MISSING = ("missing",)


def islist(v):
    """Objects are lists of pairs; arrays of anything else differ only when empty."""
    return isinstance(v, Obj)


class Obj(list):
    pass


def isstr(v):
    return isinstance(v, str) and not isinstance(v, Raw)


def parse2(b):
    t = b.decode("utf-8", "surrogateescape")
    try:
        return (json.loads(t, object_pairs_hook=Obj, parse_int=Raw, parse_float=Raw, parse_constant=bad),), t
    except (ValueError, RecursionError):
        return None, t


# ---------------------------------------------------------------- writing
def jstr(r, v):
    out = '"'
    for ch in v:
        o = ord(ch)
        u = r.random()
        if ch in '"\\':
            out += "\\" + ch
        elif ch == "/" and u < .5:
            out += "\\/"
        elif o < 32:
            sh = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(o)
            out += sh if sh and u < .6 else "\\u%04x" % o
        elif u < .08 or (o > 126 and u < .3):
            for x in (ch.encode("utf-16-be"),):
                for k in range(0, len(x), 2):
                    out += ("\\u%02x%02x" if r.random() < .5 else "\\u%02X%02X") % (x[k], x[k + 1])
        else:
            out += ch
    return out + '"'


def jnum(r, v):
    t = repr(v)
    return '"%s"' % t if r.random() < .35 else t


def write(r, c, s, o):
    """An object in some spelling."""
    fs = [f for f in s.fields if f.name in o]
    if r.random() < .4:
        r.shuffle(fs)
    out = []
    for f in fs:
        v = o[f.name]
        if r.random() < .05 and f.type != "struct":         # an earlier value that's overridden
            out.append((f, sample(r, c, s, f)))
        out.append((f, v))
    w = lambda: r.choice(("", "", "", " ", "\n\t", "  "))
    ps = []
    for f, v in out:
        if v is None:
            x = "null"
        elif f.type == "struct":
            x = write(r, c, c.target(s, f), v)
        elif f.type == "blob":
            x = jstr(r, base64.b64encode(v).decode())
        elif f.type in ("text", "email", "password"):
            x = jstr(r, v)
        else:
            x = jnum(r, v)
        ps.append(w() + '"' + f.name + '"' + w() + ":" + w() + x + w())
    return "{" + ",".join(ps) + w() + "}"


TXT = dbops.STR + ["\U0001f600 x", "a/b", "\u2028", "\x01\x1f\x7f", "\\u0041", "\\\\", "é", "\r\n", "日本"]


def sample(r, c, s, f):
    if f.null and r.random() < .3:
        return None
    d = dbops.domain(c, f)
    if f.type in ("text", "password"):
        d = TXT
    if f.type == "blob" and r.random() < .3:
        return bytes(r.randrange(256) for _ in range(r.randrange(20)))
    if f.type in ("int", "epoch", "bits", "date"):
        d = d + [2 ** 63 - 1, -2 ** 63]
    v = r.choice(d)
    return float(v) if f.type == "real" else v


def rand(r, c, s, miss=0):
    o = {}
    for f in s.fields:
        if f.noexport or r.random() < miss:
            continue
        if f.type == "struct":
            o[f.name] = None if s.f(f.src).null and r.random() < .35 else rand(r, c, c.target(s, f), miss)
        else:
            o[f.name] = sample(r, c, s, f)
    return o


LITS = [b"null", b"true", b"false", b"0", b"-", b"-1", b"1.5", b"1e3", b"12abc", b'"12abc"', b'"1 "', b'" 1"', b'""', b"{}", b"[]",
        b"99999999999999999999", b"9223372036854775808", b"-9223372036854775809", b"-9223372036854775808", b"1" * 40, b"1" * 200,
        b'"' + b"1" * 200 + b'"', b'"a"', b'"AA=A"', b'"!!!!"', b'"A"', b'"AAAAA"', b'"\\u0000"', b'"\\ud800"', b'"\\ud83d\\ude00"',
        b'"\\ud83d\\u0041"', b'"\\', b'"\\u00', b'"\\u12"', b'"\\q"', b"nul", b"n", b"+5", b"0x10", b"1e999", b"[{}]", b'{"a":{}}', b'"-"', b'"0-"']


def mutate(r, b, c):
    """Some hostile change of a document."""
    b = bytearray(b)
    toks = [m.span() for m in re.finditer(rb'"(?:[^"\\]|\\.)*"|[-0-9.eE+]+|null|[{}\[\],:]', bytes(b))]
    for _ in range(r.choice((1, 1, 1, 2, 4))):
        u = r.random()
        if not b:
            break
        if u < .45 and toks:
            i = r.randrange(len(toks))
            vals = [k for k in range(1, len(toks)) if b[toks[k - 1][0]:toks[k - 1][1]] == b":"]
            if vals and r.random() < .8:
                i = r.choice(vals)
            x, y = toks[i]
            b[x:y] = r.choice(LITS)
            break
        elif u < .6:
            i = r.randrange(len(b))
            del b[i:i + r.choice((1, 1, 2, 10, 100000))]
            toks = []
        elif u < .75:
            i = r.randrange(len(b) + 1)
            b[i:i] = r.choice((b'"', b"\\", b"{", b"}", b"[", b"]", b",", b":", b"\0", b"\xff", b" ", b"n", b"\n", b"1", b"\\u"))
            toks = []
        elif u < .85:
            b[r.randrange(len(b))] = r.randrange(256)
            toks = []
        elif toks and len(toks) > 2:
            i, j = r.randrange(len(toks)), r.randrange(len(toks))
            (x, y), (p, q) = toks[i], toks[j]
            b[x:y] = b[p:q]
            break
    return bytes(b)


def expected(c, s, b, arr, limit):
    """('ok', objects) / ('bad', why) / ('open',)."""
    v, text = parse2(b)
    if v is None:
        return ("open",)
    v = v[0]
    rd = Reader(c, text)
    try:
        if arr:
            if isinstance(v, Obj) or not isinstance(v, list):
                return ("bad", "not an array")
            return ("ok", [rd.object(s, x) if isinstance(x, Obj) else raise_(Bad("element")) for x in v])
        if not isinstance(v, Obj):
            return ("bad", "not an object")
        return ("ok", rd.object(s, v))
    except Bad as e:
        return ("bad", str(e))
    except Open:
        return ("open",)


def raise_(e):
    raise e


def same(w, g):
    if isinstance(w, dict):
        return isinstance(g, dict) and set(w) == set(g) and all(same(w[k], g[k]) for k in w)
    if w == MISSING:
        return g in ("NULLPTR", "", ("bad", "NULLPTR"))
    return w == g and type(w) == type(g)


def complete(w):
    return all(complete(x) if isinstance(x, dict) else x != MISSING for x in w.values())


def main(chk):
    b = common.build()
    root = common.scratch("p14")
    cgen.shim_obj()

    def one(i):
        if chk.too_many():
            return
        r = chk.sub(i)
        c = dbrun.config(r, structs=(1, 5), fields=(1, 7), queries=(0, 3), updates=(0, 1), deletes=(0, 1))
        # a field without a way to give it a value needs no noexport here
        text = cfg.to_text(c)
        d = os.path.join(root, str(i))
        os.makedirs(d)
        fs = {"a.ort": text}
        try:
            cgen.generate(b, d, "a.ort", text, safe=r.random() < .4, json_=True, jsmn=True, valid=False)
            src = driver(c)
            fs["main.c"] = src
            cgen.compile(d, src, opt="-O1", extra=["-Wl,--wrap=malloc,--wrap=calloc"])
        except cgen.Failed as e:
            chk.violation(e.kind + (": " + firsterror(e.det) if "compile" in e.kind else ""), e.det, fs)
            shutil.rmtree(d, ignore_errors=True)
            return
        recs, blob = [], bytearray()
        for k in range(scale(220, 900)):
            si = r.randrange(len(c.structs))
            s = c.structs[si]
            miss = r.choice((0, 0, .15, .6))
            arr = r.random() < .3
            if arr:
                t = "[" + ",".join(write(r, c, s, rand(r, c, s, miss)) for _ in range(r.choice((0, 1, 2, 5)))) + "]"
            else:
                t = write(r, c, s, rand(r, c, s, miss))
            t = t.encode("utf-8", "surrogateescape")
            mut = r.random() < .55
            if mut:
                t = mutate(r, t, c)
            if len(t) > 60000:
                continue
            lim = 1 << 20
            if r.random() < .15:
                lim = r.randrange(0, 12)
            exp = expected(c, s, t, arr, lim)
            ex = exp[0] == "ok" and all(complete(x) for x in (exp[1] if arr else [exp[1]]))
            recs.append((si, arr, lim, t, exp, ex, mut))
            blob += struct.pack("<4I", int(arr) | (2 if ex else 0) | (4 if r.random() < .3 else 0), si, lim, len(t)) + t
        with open(os.path.join(d, "in"), "wb") as f:
            f.write(blob)
        x = cgen.execute(d, "in")
        fs["in"] = bytes(blob)
        if x.timeout:
            return chk.unsure("timeout of a driver")
        res, status, flags = cgen.results(x.out)
        det = "exit %s\n%s\n%s" % (x.rc, x.err[-5000:], x.out[-1500:])
        if x.san:
            return chk.violation("generated code: " + x.san, det, fs)
        mis = [l for l in x.err.splitlines() if l.startswith("SHIM: ")]
        if mis:
            return chk.violation("misuse of kcgijson: " + " ".join(mis[0].split()[1:5]), det, fs)
        if "LEAK" in flags:
            return chk.violation("memory is leaked by the JSON import", det, fs)
        for k, rec in enumerate(recs):
            p = judge(c, rec, res.get(k), chk)
            if p:
                chk.violation(p[0], "%r\nstruct %s array %r limit %d expected %r\ngot %r\n%s" % (
                    rec[3], c.structs[rec[0]].name, rec[1], rec[2], rec[4], res.get(k), p[1]), fs)
                break
        else:
            if "DONE" not in flags:
                chk.violation("process ends early", det, fs)
        shutil.rmtree(d, ignore_errors=True)
    common.pmap(one, range(scale(220, 3000)))
    chk.rule = ("distinct (outcome, types and nullness of the fields present, kinds of mutation) of documents imported by compiled "
                "sanitized code, each in a buffer and token array of exact size, whose outcome was determined by an independent reader")
    chk.assumptions = ["kcgijson is a stand-in following its manual (shims/c)"]


def sig(c, s, o):
    return tuple(sorted((f.type, o[f.name] is None) for f in s.fields if f.name in o))


def judge(c, rec, got, chk):
    si, arr, lim, t, exp, ex, mut = rec
    s = c.structs[si]
    if got is None:
        return "no result", ""
    if isinstance(got, tuple):
        return "export isn't valid JSON", got[1][:3000]
    for x in got:
        if x == "badtoken":
            return "token outside of the buffer", ""
        if isinstance(x, str) and x.startswith("toomany"):
            return "more tokens than given", ""
    if isinstance(got[-1], dict) and "nomem" in got[-1]:
        got = list(got)
        for x in got.pop()["nomem"]:
            chk.count("failed allocations")
            if x >= 0:
                return "failed allocation isn't reported", ""
            chk.ev(("memory", arr, exp[0]))
    n = got[0]
    if n <= 0:
        if exp[0] == "ok":
            return "valid JSON isn't tokenised", ""
        chk.count("not tokenised")
        chk.ev(("untok", n))
        return None
    if len(got) < 2 or (got[1] != n and exp[0] != "open"):
        return "token count varies", ""
    if len(got) < 3:
        chk.count("not tokenised")
        return None
    rc = got[2]
    m = min(got[1], lim)
    if rc > m:
        return "more tokens consumed than given", ""
    if rc < 0:
        return "reports allocation failure", ""
    if exp[0] == "open":
        chk.count("open: " + ("accepted" if rc > 0 else "refused"))
        chk.ev(("open", rc > 0))
        return None
    if exp[0] == "bad":
        if rc > 0:
            return "malformed object is imported: " + exp[1], ""
        chk.count("refused: " + exp[1])
        chk.ev(("bad", exp[1], arr))
        return None
    if m < n:
        if rc > 0:
            return "succeeds without all tokens", ""
        chk.count("refused: too few tokens")
        chk.ev(("few", arr, m))
        return None
    if rc != n:
        return "valid object isn't imported" if rc == 0 else "wrong count of tokens", ""
    objs = [cgen.obj(c, s, o) for o in got[3]] if arr else [cgen.obj(c, s, got[3])]
    want = exp[1] if arr else [exp[1]]
    if len(objs) != len(want):
        return "wrong number of elements", ""
    for w, g in zip(want, objs):
        fix(w)
        if not same(w, g):
            return "imported value differs", "%r\n%r" % (w, g)
        chk.count("objects imported")
        chk.ev((sig(c, s, w), mut), sample={"json": t[:200].decode("utf-8", "replace"), "consumed": rc})
    if ex:
        ws = [jsonmodel.exported(c, s, o, None) for o in want]
        for e in got[4:]:
            if isinstance(e, list):
                l = e
            elif arr:
                l = list(e.values())[0] if len(e) == 1 else None
            else:
                l = [e.get(s.name)] if len(e) == 1 else None
            if not isinstance(l, list) or [jsonmodel.seen(c, s, o) for o in l] != ws:
                return "exported value differs", "%r\n%r" % (e, ws)
            chk.count("exports compared")
            chk.ev(("export", tuple(sig(c, s, w) for w in ws[:1])))
    return None


def fix(w):
    """Floats stay floats."""
    return w


if __name__ == "__main__":
    sys.exit(common.main("P14", main))
