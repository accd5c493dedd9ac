"""Drivers for the generated Rust interface: compile it against the stand-ins
in shims/rust, and run scripted operations, one result per line."""
import os, re, shutil, struct, threading
import common, cfg, auditmodel
from cfg import *

SHIM = os.path.join(common.VERIF, "shims", "rust")
CRATES = ("libsqlite3_sys", "bcrypt", "base64", "num_traits", "rusqlite")
EDITION = ["--edition", "2018", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on", "--cap-lints", "allow"]
_lock = threading.Lock()


class Failed(Exception):
    def __init__(self, kind, det):
        Exception.__init__(self, kind)
        self.kind, self.det = kind, det


def crates():
    """Directory of the compiled stand-ins."""
    with _lock:
        d = os.path.join(common.WORKROOT, "rust-shims")
        src = [os.path.join(SHIM, x + ".rs") for x in ("num_derive",) + CRATES]
        stamp = "\n".join(open(x).read() for x in src)
        mark = os.path.join(d, "stamp")
        if os.path.exists(mark) and open(mark).read() == stamp:
            return d
        shutil.rmtree(d, ignore_errors=True)
        tmp = common.scratch("rust")
        for k, x in enumerate(src):
            r = common.run(["rustc", "--edition", "2018", "--crate-type", "rlib" if k else "proc-macro", "-O", "-L", tmp,
                            "--out-dir", tmp, x], cwd=tmp, timeout=200, cpu=200)
            if r.rc or r.timeout:
                raise common.CannotDecide("stand-ins don't compile: " + r.err[-2000:])
        with open(os.path.join(tmp, "stamp"), "w") as f:
            f.write(stamp)
        shutil.move(tmp, d)
        return d


def rustc(d, src, args):
    L = crates()
    a = ["rustc"] + EDITION + ["-L", L, "-L", "."]
    for x in ("num_derive",) + CRATES:
        a += ["--extern", x]
    r = common.run(a + args + [src], cwd=d, timeout=300, cpu=200)
    if r.timeout:
        raise common.CannotDecide("rustc timeout")
    return r


def firsterror(e):
    m = re.search(r"^error(\[E\d+\])?: (.*)$", e, re.M)
    return (m.group(1) or "") + " " + re.sub(r"`[^`]*`", "_", m.group(2)) if m else "?"


def generate(b, d, name, text):
    with open(os.path.join(d, name), "wb") as f:
        f.write(text.encode("utf-8", "surrogateescape"))
    r = common.run([os.path.join(b, "ort-rust"), name], cwd=d)
    if r.san:
        raise Failed("crash: ort-rust: " + r.san, r.err)
    if r.rc or r.timeout:
        raise Failed("ort-rust fails on a valid configuration", "%s %s\n%s" % (r.rc, r.timeout, r.err))
    with open(os.path.join(d, "lib.rs"), "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(r.out)
    r = rustc(d, "lib.rs", ["--crate-name", "orb", "--crate-type", "rlib"])
    if r.rc:
        raise Failed("generated Rust doesn't compile:" + firsterror(r.err), r.err[:6000])


def compile(d, main):
    with open(os.path.join(d, "main.rs"), "w", encoding="utf-8") as f:
        f.write(main)
    r = rustc(d, "main.rs", ["--crate-name", "drv", "--extern", "orb"])
    if r.rc:
        raise Failed("driver of the generated Rust doesn't compile:" + firsterror(r.err), r.err[:6000])


KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub
ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final
macro override priv typeof unsized virtual yield try""".split())


def ident(n):
    return "r#" + n if n in KEYWORDS else n


def title(n):
    return n[0].upper() + n[1:]


def rstr(s):
    return '"' + "".join(ch if ch.isascii() and (ch.isalnum() or ch in " _.@-") else "\\u{%x}" % ord(ch) for ch in s) + '"'


def lit(c, f, v):
    t = f.type
    if t == "enum":
        return "data::%s::%s" % (title(f.tname), title({x: n for n, x in c.e(f.tname).values().items()}[v]))
    if t == "real":
        return "f64::from_bits(0x%x)" % struct.unpack("<Q", struct.pack("<d", float(v)))
    if t == "blob":
        return "&vec![%s] as &Vec<u8>" % ",".join("%du8" % x for x in v)
    if t in ("text", "email", "password"):
        return "&%s.to_string()" % rstr(v)
    return "i64::MIN" if v == -2 ** 63 else "%di64" % v


def arg(c, f, v):
    if not f.null:
        return lit(c, f, v)
    return "None" if v is None else "Some(%s)" % lit(c, f, v)


def printers(c):
    out = []
    for s in c.structs:
        out.append("fn pr_%s(o: &data::%s) -> String {\n    let mut l: Vec<String> = Vec::new();" % (s.name, title(s.name)))
        for f in s.fields:
            x = "o." + ident(f.name)
            null = s.f(f.src).null if f.type == "struct" else f.null
            T = {"real": "pf(*x)", "blob": "pb(x)", "text": "ps(x)", "email": "ps(x)", "password": "ps(x)"}
            if f.type == "struct":
                e = "pr_%s(x)" % c.target(s, f).name
            elif f.type == "enum":
                e = "match x { %s }" % ", ".join("data::%s::%s => (%di64).to_string()" % (title(f.tname), title(n), v)
                                                for n, v in c.e(f.tname).values().items())
            else:
                e = T.get(f.type, "pi(*x)")
            e = "match &%s { None => \"null\".to_string(), Some(x) => %s }" % (x, e) if null else "{ let x = &%s; %s }" % (x, e)
            out.append("    l.push(format!(\"\\\"%s\\\":{}\", %s));" % (f.name, e))
        out.append("    format!(\"{{{}}}\", l.join(\",\"))\n}")
        out.append("fn cb_%s(o: objs::%s) { let t = pr_%s(&o.data); OUT.with(|v| v.borrow_mut().push(t)); }" %
                   (s.name, title(s.name), s.name))
        out.append("fn ex_%s(o: objs::%s) { let t = o.export(); OUT.with(|v| v.borrow_mut().push(t)); }" % (s.name, title(s.name)))
    return "\n".join(out)


PRE = r'''
use orb::ort;
use orb::ort::{data, objs};
use std::cell::RefCell;
use std::io::Write;
thread_local! { static OUT: RefCell<Vec<String>> = RefCell::new(Vec::new()); }
fn pi(x: i64) -> String { x.to_string() }
fn pf(x: f64) -> String { format!("\"{:e}\"", x) }
fn pb(x: &Vec<u8>) -> String { let mut s = String::from("\"#"); for b in x { s += &format!("{:02x}", b); } s + "\"" }
fn js(x: &str) -> String {
    let mut s = String::from("\"");
    for u in x.encode_utf16() { s += &format!("\\u{:04x}", u); }
    s + "\""
}
fn ps(x: &String) -> String { js(&("=".to_string() + x)) }
fn one<T>(o: Option<T>, f: fn(T) -> String) -> String { match o { None => "[]".to_string(), Some(x) => format!("[{}]", f(x)) } }
fn list<T>(o: Vec<T>, f: fn(T) -> String) -> String { let l: Vec<String> = o.into_iter().map(f).collect(); format!("[{}]", l.join(",")) }
fn taken() -> String { OUT.with(|v| { let s = format!("[{}]", v.borrow().join(",")); v.borrow_mut().clear(); s }) }
type Res = Result<String, rusqlite::Error>;
fn step(idx: usize, f: &mut dyn FnMut() -> Res) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
    let o = std::io::stdout();
    let mut o = o.lock();
    match r {
        Ok(Ok(s)) => { if s != "" { writeln!(o, "R {} {}", idx, s).unwrap(); } writeln!(o, "E {} 0", idx).unwrap(); }
        Ok(Err(e)) => writeln!(o, "E {} 1 {:?}", idx, e).unwrap(),
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
            writeln!(o, "E {} {} {}", idx, if m == "role violation" { 134 } else { 101 }, m.replace("\n", " ")).unwrap();
        }
    }
    OUT.with(|v| v.borrow_mut().clear());
}
'''


class Driver:
    def __init__(self, c, cost):
        self.c, self.cost, self.body = c, cost, []

    def call(self, kind, s, op, vals, export=False, after=None):
        """An expression of type Res."""
        c = self.c
        a = []
        after = "ctx.db_role(ort::Ortrole::%s);" % title(after) if after else ""
        if kind == "insert":
            fs = [f for f in s.fields if f.type != "struct" and not f.rowid]
            return "ctx.db_%s_insert(%s).map(|x| x.to_string())" % (s.name, ", ".join(arg(c, f, v) for f, v in zip(fs, vals)))
        if kind in ("update", "delete"):
            mods, cons = vals
            ms = op.mods or ([(f.name, "set") for f in s.fields if f.type != "struct" and not f.rowid] if kind == "update" else [])
            a += [arg(c, s.f(fn), v) for (fn, _), v in zip(ms, mods)]
            a += [arg(c, s.f(fn), v) for (fn, _), v in zip([x for x in op.cons if x[1] not in UNARY], cons)]
            return "ctx.%s(%s).map(|x| %s)" % (auditmodel.update_name(s, op, kind), ", ".join(a),
                                              "(x as i32).to_string()" if kind == "update" else "{ let () = x; String::new() }")
        m = auditmodel.query_name(s, op)
        it = iter(vals)
        for p, o_ in op.terms:
            if o_ not in UNARY:
                a.append(arg(c, c.path_field(s, p)[1], next(it)))
        t = s
        for p in op.distinct or ():
            t = c.target(t, t.f(p))
        show = "|o: objs::%s| %s" % (title(t.name), "o.export()" if export else "pr_%s(&o.data)" % t.name)
        if op.type == "count":
            return "ctx.%s(%s).map(|x: i64| x.to_string())" % (m, ", ".join(a))
        if op.type == "iterate":
            return "ctx.%s(%s).map(|x| { let () = x; taken() })" % (m, ", ".join(["%s_%s" % ("ex" if export else "cb", t.name)] + a))
        return "ctx.%s(%s).map(|x| { %s %s(x, %s) })" % (m, ", ".join(a), after, "one" if op.type == "search" else "list", show)

    def add(self, idx, expr):
        self.body.append("    step(%d, &mut || { %s });" % (idx, expr))

    def inrole(self, path, expr, changes=False):
        """The expression in a connection that changes roles, or whether the last is the current one."""
        pre = " ".join("ctx.db_role(ort::Ortrole::%s);" % title(x) for x in path if changes or path != ["default"])
        if changes:
            expr = "Ok((ctx.db_role_current() == ort::Ortrole::%s).to_string().replace(\"true\", \"1\"))" % title(path[-1])
        return "let mut ctx = db.connect().unwrap(); %s %s" % (pre, expr)

    def text(self):
        out = [PRE, printers(self.c)]
        n = 0
        for k in range(0, len(self.body), 20):
            out.append("fn part%d(db: &ort::Ortdb, ctx: &mut ort::Ortctx) {\n%s\n}" % (n, "\n".join(self.body[k:k + 20])))
            n += 1
        args = "ort::Ortdb::new_with_args(&p, ort::Ortargs { bcrypt_cost: %d })" % self.cost if self.cost else "ort::Ortdb::new(&p)"
        out.append("fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n    let p = std::env::args().nth(1).unwrap();\n    let db = %s;\n    {\n    let mut ctx = db.connect().unwrap();" % args)
        out += ["    part%d(&db, &mut ctx);" % k for k in range(n)]
        out.append('    }\n    for x in bcrypt::take_costs() { println!("C {}", x); }\n    println!("DONE");\n}')
        return "\n".join(out) + "\n"


def execute(d, db):
    return common.run(["./drv", db], cwd=d, timeout=120, cpu=60)
