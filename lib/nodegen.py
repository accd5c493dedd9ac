"""Drivers for the generated Node.js interface: transpile it, link it with the
stand-ins in shims/node, and run scripted operations, one result per line."""
import json, os, re, shutil, threading, zlib
import common, cfg, auditmodel
from cfg import *

SHIM = os.path.join(common.VERIF, "shims", "node")
MODS = "/opt/veriftools/node/node_modules"
ESBUILD = os.path.join(MODS, "esbuild", "bin", "esbuild")
TSC = os.path.join(MODS, "typescript", "bin", "tsc")


class Failed(Exception):
    def __init__(self, kind, det):
        Exception.__init__(self, kind)
        self.kind, self.det = kind, det


def generate(b, d, name, text, flags=("-v",)):
    cf = os.path.join(d, name)
    with open(cf, "wb") as f:
        f.write(text.encode("utf-8", "surrogateescape"))
    r = common.run([os.path.join(b, "ort-nodejs")] + list(flags) + [name], cwd=d)
    if r.san:
        raise Failed("crash: ort-nodejs: " + r.san, r.err)
    if r.rc or r.timeout:
        raise Failed("ort-nodejs fails on a valid configuration", "%s %s\n%s" % (r.rc, r.timeout, r.err))
    with open(os.path.join(d, "ort.ts"), "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(r.out)
    nm = os.path.join(d, "node_modules")
    if not os.path.exists(nm):
        os.symlink(SHIM, nm)
    r = common.run([ESBUILD, "--format=esm", "--target=node22", "--outfile=ort.mjs", "--log-limit=3", "ort.ts"], cwd=d, timeout=100)
    if r.timeout:
        raise common.CannotDecide("esbuild timeout")
    if r.rc:
        raise Failed("generated TypeScript isn't syntactically valid", r.err[:4000])


def typecheck(ds):
    """Type-check the outputs in several directories at once: {dir: errors}."""
    top = os.path.dirname(ds[0])
    r = common.run(["node", TSC, "--noEmit", "--target", "es2022", "--module", "esnext", "--moduleResolution", "node10",
                    "--esModuleInterop", "--strict", "--useUnknownInCatchVariables", "false", "--types", "node", "--typeRoots",
                    os.path.join(MODS, "@types"), os.path.join(SHIM, "modules.d.ts")] + [os.path.join(d, "ort.ts") for d in ds],
                   cwd=top, timeout=300, cpu=300)
    out = {}
    if r.timeout:
        raise common.CannotDecide("tsc timeout")
    for l in r.out.splitlines():
        for d in ds:
            if os.path.basename(d) + "/ort.ts(" in l:
                out.setdefault(d, []).append(l)
                break
        else:
            if "error TS" in l:
                raise common.CannotDecide("tsc: " + l)
    return out


def keep(d, dirs, some):
    """Leave a directory's outputs to be type-checked later, or remove it."""
    if not some:
        return shutil.rmtree(d, ignore_errors=True)
    for n in os.listdir(d):
        if n not in ("ort.ts", "a.ort"):
            os.unlink(os.path.join(d, n))
    dirs.append(d)


def welltyped(chk, dirs):
    def text(d, n):
        return open(os.path.join(d, n), encoding="utf-8", errors="surrogateescape").read()
    dirs = sorted(dirs)
    for e in common.pmap(typecheck, [g for g in (dirs[k::common.JOBS] for k in range(common.JOBS)) if g]):
        for d, l in e.items():
            chk.violation("generated TypeScript isn't well-typed: " + re.sub(r"'[^']*'", "_", l[0].split("error ")[1]),
                          "\n".join(l), {"ort.ts": text(d, "ort.ts"), "a.ort": text(d, "a.ort")})
    chk.count("type-checked", len(dirs))


MAIN = r'''
import fs from 'fs';
import * as M from './ort.mjs';
class Abort extends Error {}
process.abort = () => { throw new Abort('abort'); };
const say = (s) => fs.writeSync(1, s + '\n');
process.emitWarning = () => {};
const dec = (x) => x === null ? null : 'b' in x ? BigInt(x.b) : 'x' in x ? Buffer.from(x.x, 'hex') : 's' in x ? x.s : x.n;
function enc(t, v) {
	if (v === null) return null;
	switch (t[0]) {
	case 'i': if (typeof v !== 'bigint') return 'notbigint:' + typeof v; return {raw: v.toString()};
	case 'e': if (typeof v !== 'string') return 'notstring:' + typeof v; return {raw: v};
	case 'r': if (typeof v !== 'number') return 'notnumber:' + typeof v; return String(v);
	case 'x': if (!Buffer.isBuffer(v)) return 'notbuffer:' + typeof v; return '#' + v.toString('hex');
	case 's': if (typeof v !== 'string') return 'notstring:' + typeof v; return '=' + v;
	}
}
const job = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
function prin(s, o) {
	const l = [];
	const want = new Set(job.types[s].map((f) => f[0]));
	for (const k of Object.keys(o)) if (!want.has(k)) l.push(JSON.stringify('EXTRA ' + k) + ':1');
	for (const [n, t] of job.types[s]) {
		const v = o[n];
		let x;
		if (v === undefined) x = '"undefined"';
		else if (t.startsWith('S')) x = v === null ? 'null' : prin(t.slice(1), v);
		else { const e = enc(t, v); x = e !== null && typeof e === 'object' ? e.raw : JSON.stringify(e); }
		l.push(JSON.stringify(n) + ':' + x);
	}
	return '{' + l.join(',') + '}';
}
const db = job.args ? M.ort(job.db, job.args) : M.ort(job.db);
let shared = db.connect();
let other = null;
for (const st of job.steps) {
	let out = '', rc = 0;
	try {
		const ctx = st.role ? db.connect() : shared;
		for (const x of st.role || []) ctx.db_role(x);
		const a = (st.a || []).map(dec);
		const exp = (o) => JSON.stringify(o.export());
		const one = (o) => {
			if (!(o instanceof M.ortns[st.t])) throw new Error('not an instance of its class');
			if (st.export) { if (st.after) ctx.db_role(st.after); return exp(o); }
			return prin(st.t, o.obj);
		};
		switch (st.k) {
		case 'insert': out = ctx[st.m](...a).toString(); break;
		case 'update': out = ctx[st.m](...a) === true ? '1' : '0'; break;
		case 'delete': ctx[st.m](...a); out = 'null'; break;
		case 'count': { const v = ctx[st.m](...a); if (typeof v !== 'bigint') throw new Error('not a bigint'); out = v.toString(); break; }
		case 'search': { const o = ctx[st.m](...a); out = '[' + (o === null ? '' : one(o)) + ']'; break; }
		case 'list': { const l = ctx[st.m](...a); if (st.after) ctx.db_role(st.after); st.after = null; out = '[' + l.map(one).join(',') + ']'; break; }
		case 'iterate': { const l = []; ctx[st.m](...a, (o) => { l.push(st.export ? o : one(o)); });
			if (st.export) { if (st.after) ctx.db_role(st.after); st.after = null; out = '[' + l.map(one).join(',') + ']'; }
			else out = '[' + l.join(',') + ']'; break; }
		case 'roles': out = ctx.db_role_current() === st.role[st.role.length - 1] ? '1' : '0'; break;
		case 'begin': shared['db_trans_open_' + st.how](st.id); out = probe(st.how); break;
		case 'commit': case 'rollback': shared['db_trans_' + st.k](st.id); out = '1'; break;
		}
	} catch (e) {
		rc = e instanceof Abort ? 134 : 1;
		if (rc === 1) out = JSON.stringify(['throw', String(e.code), String(e.message)]);
	}
	if (out !== '' && rc !== 1) say('R ' + st.idx + ' ' + out);
	say('E ' + st.idx + ' ' + rc + (rc === 1 ? ' ' + out : ''));
}
// What another connection can do while a transaction has just begun.
function probe(how) {
	const { DatabaseSync } = sqlite;
	if (other === null) { other = new DatabaseSync(job.db); other.exec('PRAGMA busy_timeout=0'); }
	let r = '';
	for (const sql of ['SELECT count(*) FROM sqlite_master', 'BEGIN IMMEDIATE']) {
		try { other.prepare(sql).all(); r += 'y'; } catch (e) { r += 'n'; }
	}
	try { other.exec('ROLLBACK'); } catch (e) { }
	return JSON.stringify(r);
}
say('C ' + [...(globalThis.bcryptCosts || [])].join(' '));
say('DONE');
'''
MAIN = MAIN.replace("import fs from 'fs';", "import fs from 'fs';\nimport * as sqlite from 'node:sqlite';")


def types(c):
    T = {"real": "r", "blob": "x", "text": "s", "email": "s", "password": "s", "enum": "e"}
    return {s.name: [(f.name, "S" + c.target(s, f).name if f.type == "struct" else T.get(f.type, "i")) for f in s.fields]
            for s in c.structs}


_args = threading.local()


def salt():
    """Alternates within a script."""
    _args.n = getattr(_args, "n", 0) + 1
    return _args.n


def arg(f, v):
    if v is None:
        return None
    if f.type == "real":
        return {"n": float(v)}
    if f.type == "blob":
        return {"x": v.hex()}
    if f.type in ("text", "email", "password"):
        return {"s": v}
    if f.type == "enum":
        return {"s": str(v)}
    if f.type == "bits" and v < 0 and salt() & 1:
        # The same bits, as an unsigned number.
        v += 1 << 64
    return {"b": str(v)}


def call(c, kind, s, op, vals):
    """A step's method and arguments."""
    _args.n = zlib.crc32(repr((s.name, vals)).encode("utf-8", "surrogateescape"))
    a = []
    t = s
    if kind == "insert":
        m = "db_%s_insert" % s.name
        fs = [f for f in s.fields if f.type != "struct" and not f.rowid]
        a = [arg(f, v) for f, v in zip(fs, vals)]
    elif kind in ("update", "delete"):
        m = auditmodel.update_name(s, op, kind)
        mods, cons = vals
        ms = op.mods or ([(f.name, "set") for f in s.fields if f.type != "struct" and not f.rowid] if kind == "update" else [])
        a += [arg(s.f(fn), v) for (fn, _), v in zip(ms, mods)]
        a += [arg(s.f(fn), v) for (fn, _), v in zip([x for x in op.cons if x[1] not in UNARY], cons)]
    else:
        m = auditmodel.query_name(s, op)
        it = iter(vals)
        for p, o_ in op.terms:
            if o_ not in UNARY:
                a.append(arg(c.path_field(s, p)[1], next(it)))
        for p in op.distinct or ():
            t = c.target(t, t.f(p))
        kind = op.type
    return {"k": kind, "m": m, "a": a, "t": t.name}


def execute(d, job):
    with open(os.path.join(d, "job.json"), "w") as f:
        json.dump(job, f)
    with open(os.path.join(d, "main.mjs"), "w") as f:
        f.write(MAIN)
    return common.run(["node", "--no-warnings", "main.mjs", "job.json"], cwd=d, timeout=120, cpu=60)


def results(out):
    """idx -> result; idx -> status; flags; idx -> exception."""
    res, st, flags, exc = {}, {}, set(), {}
    for ln in out.split("\n"):
        w = ln.split(" ", 2)
        if w[0] == "R" and len(w) == 3:
            try:
                res[int(w[1])] = json.loads(w[2])
            except ValueError:
                res[int(w[1])] = ("bad", w[2])
        elif w[0] == "E":
            x = w[2].split(" ", 1)
            st[int(w[1])] = int(x[0])
            if len(x) > 1:
                exc[int(w[1])] = x[1]
        elif w[0] == "C":
            flags.update(int(x) for x in ln.split()[1:])
        elif w[0] == "DONE":
            flags.add("DONE")
    return res, st, flags, exc
