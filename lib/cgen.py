"""Drivers for the generated C interface: compile it against the stand-ins in
shims/c under sanitizers and run scripted operations, one result per line."""
import json, os, subprocess
import common, cfg, auditmodel
from cfg import *

SHIM = os.path.join(common.VERIF, "shims", "c")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
WARN = ["-std=gnu11", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types",
        "-Werror=int-conversion", "-Werror=return-type", "-Werror=implicit-int", "-Werror=format"]
INTS = ("bit", "bits", "date", "epoch", "int")
_shim = {}


def shim_obj():
    """The stand-ins, compiled once per process."""
    with common._build_lock:
        if "o" not in _shim:
            d = common.scratch("shim")
            o = os.path.join(d, "shim.o")
            r = common.run(["gcc", "-g", "-O1"] + SAN + ["-I" + SHIM, "-c", os.path.join(SHIM, "shim.c"), "-o", o])
            if r.rc:
                raise common.CannotDecide("shim: " + r.err)
            _shim["o"] = o
        return _shim["o"]


def cstr(s):
    out = '"'
    for b in s.encode("utf-8", "surrogateescape"):
        if b in (34, 92) or b < 32 or b > 126 or b == 63:
            out += "\\%03o" % b
        else:
            out += chr(b)
    return out + '"'


def cblob(b):
    return "\"" + "".join("\\%03o" % x for x in b) + "\""


def cint(v):
    return "(-INT64_MAX-1)" if v == -2 ** 63 else "INT64_C(%d)" % v


def cdbl(v):
    r = repr(float(v))
    return "(%s)" % r


def typename(c, s, f):
    """(struct, field) whose typedef a field's integer type uses."""
    seen = []
    while f.ref:
        if (s.name, f.name) in seen:            # circular: the first by name has the type
            return min(seen[seen.index((s.name, f.name)):])
        seen.append((s.name, f.name))
        s = c.s(f.ref[0])
        f = s.f(f.ref[1])
    return s.name, f.name


class Args:
    """Collects the declarations and the argument list of one call."""

    def __init__(self, c):
        self.c, self.decl, self.args, self.n = c, [], [], 0

    def add(self, s, f, v, ptr):
        self.n += 1
        t = "a%d" % self.n
        if f.type in INTS:
            ty = "%s_%s" % typename(self.c, s, f)
            ex = "ORT_%s(%s)" % (ty, cint(v)) if v is not None else None
        elif f.type == "enum":
            ty, ex = "enum " + f.tname, None if v is None else "(enum %s)%s" % (f.tname, cint(v))
        elif f.type == "real":
            ty, ex = "double", None if v is None else cdbl(v)
        elif f.type == "blob":
            ty, ex = "const void *", None if v is None else cblob(v)
            self.args.append("%d" % (len(v) if v is not None else 0))
        else:
            ty, ex = "const char *", None if v is None else cstr(v)
        if ptr and v is None:
            self.args.append("NULL")
        elif ptr:
            self.decl.append("%s %s = %s;" % (ty, t, ex))
            self.args.append("&" + t)
        else:
            self.args.append(ex if ex is not None else "NULL")


def printers(c, withrole):
    """Functions printing every structure as JSON with all its fields."""
    out = []
    for s in c.topo():
        out.append("static void pr_%s(const struct %s *p);" % (s.name, s.name))
    for s in c.topo():
        b = ["static void pr_%s(const struct %s *p)" % (s.name, s.name), "{", '\tprintf("{");']
        for i, f in enumerate(s.fields):
            b.append('\tprintf("%s\\"%s\\":");' % ("," if i else "", f.name))
            null = s.f(f.src).null if f.type == "struct" else f.null
            if null:
                b.append("\tif (!p->has_%s) printf(\"null\"); else" % f.name)
            if f.type == "struct":
                b.append("\tpr_%s(&p->%s);" % (c.target(s, f).name, f.name))
            elif f.type in INTS:
                b.append("\tpi((int64_t)ORT_GET_%s_%s(p));" % (s.name, f.name))
            elif f.type == "enum":
                b.append("\tpi((int64_t)p->%s);" % f.name)
            elif f.type == "real":
                b.append("\tpd(p->%s);" % f.name)
            elif f.type == "blob":
                b.append("\tpb(p->%s, p->%s_sz);" % (f.name, f.name))
            else:
                b.append("\tps(p->%s);" % f.name)
        b += ['\tprintf("}");', "}"]
        b += ["static void cb_%s(const struct %s *p, void *arg) { int *n = arg; if ((*n)++) printf(\",\"); pr_%s(p); }"
              % (s.name, s.name, s.name)]
        out += b
    return "\n".join(out)


PRE = r'''
#include <sys/types.h>
#include <sys/queue.h>
#include <sys/wait.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sqlbox.h>
#include <kcgi.h>
#include <kcgijson.h>
#include "db.h"
#include <sanitizer/lsan_interface.h>
static const char *file;
static int leaks;
static struct ort *o, *o0;
static void pi(int64_t v) { printf("%" PRId64, v); }
static void pd(double v) { printf("\"%.17g\"", v); }
static void ps(const char *v) {
	if (v == NULL) { printf("\"NULLPTR\""); return; }
	printf("\"=");
	for (; *v; v++) {
		unsigned char c = (unsigned char)*v;
		if (c == '"' || c == '\\') printf("\\%c", c);
		else if (c < 32) printf("\\u%.4x", c);
		else putchar(c);
	}
	printf("\"");
}
static void pb(const void *v, size_t sz) {
	size_t i;
	printf("\"#");
	for (i = 0; i < sz; i++) printf("%02x", ((const unsigned char *)v)[i]);
	printf("\"");
}
/* Run in a process and with a connection of its own. */
static void forked(int idx, void (*fn)(int)) {
	int st;
	pid_t pid;
	printf("F %d\n", idx); fflush(stdout);
	pid = fork();
	if (pid == 0) {
		o0 = o;
		if ((o = db_open(file)) == NULL) { printf("X %d noopen\n", idx); fflush(stdout); _exit(77); }
		fn(idx); db_close(o); printf("\nOK %d\n", idx);
		o = NULL;
		if (leaks && __lsan_do_recoverable_leak_check()) printf("LEAK %d\n", idx); fflush(stdout); _exit(0);
	}
	waitpid(pid, &st, 0);
	printf("\nE %d %d\n", idx, WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)); fflush(stdout);
}
'''


class Driver:
    def __init__(self, c):
        self.c, self.fns, self.body = c, [], []

    def call(self, kind, s, op, vals):
        """C statements performing an operation and printing its result."""
        c = self.c
        a = Args(c)
        if kind == "insert":
            fs = [f for f in s.fields if f.type != "struct" and not f.rowid]
            for f, v in zip(fs, vals):
                a.add(s, f, v, f.null)
            code = 'pi(db_%s_insert(%s));' % (s.name, ", ".join(["o"] + a.args))
        elif kind in ("update", "delete"):
            mods, cons = vals
            n = auditmodel.update_name(s, op, kind)
            ms = op.mods or ([(f.name, "set") for f in s.fields if f.type != "struct" and not f.rowid]
                             if kind == "update" else [])
            for (fn, m), v in zip(ms, mods):
                f = s.f(fn)
                a.add(s, f, v, f.null)
            for (fn, o_), v in zip([x for x in op.cons if x[1] not in UNARY], cons):
                a.add(s, s.f(fn), v, False)
            code = "%s(%s);" % (n, ", ".join(["o"] + a.args))
            code = "pi(%s);" % code[:-1] if kind == "update" else code + ' printf("null");'
        else:
            n = auditmodel.query_name(s, op)
            it = iter(vals)
            for p, o_ in op.terms:
                if o_ in UNARY:
                    continue
                os_, f = c.path_field(s, p)
                a.add(os_, f, next(it), False)
            t = s
            for p in op.distinct or ():
                t = c.target(t, t.f(p))
            al = ", ".join(["o"] + a.args)
            if op.type == "search":
                code = ('struct %s *p = %s(%s); if (p == NULL) printf("[]"); else { printf("["); pr_%s(p); '
                        'printf("]"); } db_%s_free(p);' % (t.name, n, al, t.name, t.name))
            elif op.type == "count":
                code = 'printf("%%" PRIu64, %s(%s));' % (n, al)
            elif op.type == "list":
                code = ('struct %s_q *q = %s(%s); struct %s *p; int n = 0; printf("["); '
                        'TAILQ_FOREACH(p, q, _entries) cb_%s(p, &n); printf("]"); db_%s_freeq(q);'
                        % (t.name, n, al, t.name, t.name, t.name))
            else:
                al = ", ".join(["o", "cb_" + t.name, "&n"] + a.args)
                code = 'int n = 0; printf("["); %s(%s); printf("]");' % (n, al)
        return " ".join(a.decl) + " " + code

    def add(self, idx, code, fork=False, role=None, post=""):
        pre = "db_role(o, ROLE_%s); " % role if role else ""
        if fork:
            self.fns.append('static void f%d(int idx) { %s printf("R %d "); %s printf("\\n"); %s }' % (
                idx, pre, idx, code, post))
            self.body.append("\tforked(%d, f%d);" % (idx, idx))
        else:
            self.fns.append('static void f%d(int idx) { %sprintf("R %d "); %s printf("\\n"); fflush(stdout); %s }' % (
                idx, pre, idx, code, post))
            self.body.append("\tf%d(%d);" % (idx, idx))

    def text(self, extra="", leaks=0):
        return "\n".join([PRE, printers(self.c, False), extra] + self.fns + [
            "int main(int argc, char *argv[]) {", "\tfile = argv[1]; leaks = %d;" % leaks,
            '\tif ((o = db_open(file)) == NULL) { printf("NOOPEN\\n"); return 3; }'] + self.body + [
            "\tdb_close(o);", '\tif (__lsan_do_recoverable_leak_check()) printf("LEAK\\n");',
            '\tprintf("DONE\\n");', "\treturn 0;", "}", ""])


class Failed(Exception):
    def __init__(self, kind, det):
        Exception.__init__(self, kind)
        self.kind, self.det = kind, det


def generate(b, d, name, text, safe=False, json_=True, jsmn=True, valid=True):
    """Run the header and source generators; Failed on trouble."""
    cf = os.path.join(d, name)
    with open(cf, "wb") as f:
        f.write(text.encode("utf-8", "surrogateescape"))
    fl = (["-j"] if json_ else []) + (["-J"] if jsmn else []) + (["-v"] if valid else [])
    for t, out, extra in (("ort-c-header", "db.h", ["-s"] if safe else []),
                          ("ort-c-source", "db.c", ["-S", b, "-h", "db.h"])):
        r = common.run([os.path.join(b, t)] + fl + extra + [name], cwd=d)
        if r.san:
            raise Failed("crash: %s: %s" % (t, r.san), r.err)
        if r.rc or r.timeout:
            raise Failed("%s fails on a valid configuration" % t, "%s %s\n%s" % (r.rc, r.timeout, r.err))
        with open(os.path.join(d, out), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(r.out)
    return fl


def compile(d, main, exe="drv", opt="-O0", extra=()):
    with open(os.path.join(d, "main.c"), "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(main)
    r = common.run(["gcc", opt, "-g1"] + SAN + WARN + ["-include", os.path.join(SHIM, "prelude.h"), "-I" + SHIM, "-I" + d,
                    "db.c", "main.c", shim_obj(), "-o", exe, "-lsqlite3", "-lresolv", "-lm"] + list(extra), cwd=d, timeout=300, cpu=200)
    if r.timeout:
        raise common.CannotDecide("compiler timeout")
    if r.rc:
        raise Failed("generated C doesn't compile", r.err[:6000])


ENV = {"ASAN_OPTIONS": common.BASE_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1"),
       "LSAN_OPTIONS": "leak_check_at_exit=0"}


def execute(d, db, exe="./drv"):
    return common.run([exe, db], cwd=d, env=ENV, timeout=120, cpu=60)


def value(f, v):
    """A printed value as the model's."""
    if v is None:
        return None
    if f.type == "real":
        return float(v)
    if f.type == "blob":
        return bytes.fromhex(v[1:]) if isinstance(v, str) and v[:1] == "#" else ("bad", v)
    if f.type in ("text", "email", "password"):
        return v[1:] if isinstance(v, str) and v[:1] == "=" else ("bad", v)
    return v


def obj(c, s, o):
    """A printed object as the model's."""
    out = {}
    for f in s.fields:
        v = o[f.name]
        if f.type == "struct":
            out[f.name] = None if v is None else obj(c, c.target(s, f), v)
        else:
            out[f.name] = value(f, v)
    return out


def results(out):
    """idx -> parsed result; and fork statuses, flags."""
    res, st, flags = {}, {}, set()
    for ln in out.split("\n"):
        w = ln.split(" ", 2)
        if w[0] == "R" and len(w) == 3:
            try:
                res[int(w[1])] = json.loads(w[2])
            except ValueError:
                res[int(w[1])] = ("bad", w[2])
        elif w[0] == "E":
            st[int(w[1])] = int(w[2])
        elif w[0] in ("LEAK", "DONE", "NOOPEN"):
            flags.add(w[0])
    return res, st, flags
