#!/usr/bin/env python3
"""P25: the audit page shows the audit."""
import html.parser, json, math, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, big
from common import scale

DRV = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "js", "auditpage.js")
VOID = {"meta", "link", "input", "br", "img", "hr", "col", "area", "base", "embed", "source", "wbr"}
KINDS = {"deletes": "delete", "inserts": "insert", "iterates": "iterate", "lists": "list", "searches": "get", "updates": "update",
         "counts": "count"}
TITLES = {"delete": "delete", "insert": "insert", "iterate": "iterate", "list": "list", "get": "search", "update": "update", "count": "count"}


class Html(html.parser.HTMLParser):
    """A page as [tag, attributes, children]."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root, self.at = None, []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        n = [tag, {k: v or "" for k, v in attrs}, []]
        if self.at:
            self.at[-1][2].append(n)
        elif self.root is None:
            self.root = n
        if tag not in VOID:
            self.at.append(n)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.at.pop()

    def handle_endtag(self, tag):
        if any(n[0] == tag for n in self.at):
            while self.at.pop()[0] != tag:
                pass

    def handle_data(self, d):
        if self.at:
            self.at[-1][2].append(d)


class Wrong(Exception):
    pass


def walk(n):
    """Visible elements in document order."""
    if not isinstance(n, str):
        yield n
        for c in n[2]:
            yield from walk(c)


def text(n):
    return n if isinstance(n, str) else "".join(text(c) for c in n[2])


def words(n):
    return " ".join(text(n).split())


def classes(n):
    return n[1].get("class", "").split()


def byid(n, i):
    l = [e for e in walk(n) if e[1].get("id") == i]
    return l[0] if l else None


def codes(n):
    return [e for e in walk(n) if e[0] == "code"]


def expect(what, got, want):
    if got != want:
        raise Wrong(what, "%r, not %r" % (got, want))


def percents(a, J):
    """What may be shown as share of exported fields."""
    if "data" not in a["access"]:
        return {"0%"}
    if not a["access"]["exportable"]:
        return {"0%"}
    l = a["access"]["data"]
    no = sum(not J["fields"]["%s.%s" % (a["name"], f)]["export"] for f in l)
    x, half = divmod(200 * (len(l) - no), len(l))
    # x is twice the percentage, rounded down
    if half == 0 and x % 2:
        return {"%d%%" % (x // 2), "%d%%" % (x // 2 + 1)}
    return {"%d%%" % ((x + 1) // 2)}


def judge(chk, J, res):
    """Compare a page with an audit."""
    rank = {n: i for i, n in enumerate(res["ranks"])}
    F = J["functions"]
    page = res["page"]

    def alike(what, got, want):
        expect(what, sorted(got), sorted(want))
        expect(what + " in order", got, sorted(got, key=rank.get))

    for i, vis in (("kwbp-parsed", True), ("kwbp-parsing", False), ("kwbp-parseerr", False), ("kwbp-aside", False)):
        expect("shown parts of the page", (i, byid(page, i) is not None), (i, vis))
    expect("name of the role", text(byid(page, "kwbp-audit-role")), J["role"])
    d, nd = byid(page, "kwbp-audit-role-doc"), byid(page, "kwbp-audit-role-nodoc")
    expect("documentation of the role", None if d is None else text(d), J["doc"])
    expect("lack of documentation of the role", nd is not None, J["doc"] is None)
    # The overview first.
    for e in walk(page):
        if e[0] == "input":
            expect("view shown first", e[1][":checked"], "true" if "audit-toplevel-view" in classes(e) else "false")
    # Structures.
    secs = [e for e in byid(page, "kwbp-audit-access-list")[2] if not isinstance(e, str)]
    A = sorted(J["access"], key=lambda a: rank[a["name"]])
    expect("structures", [words(codes(e)[0]) for e in secs], [a["name"] for a in A])
    for s, a in zip(secs, A):
        structure(chk, J, res, s, a, alike)
    expect("identifiers of views repeat", len({e[1]["id"] for e in walk(page) if e[0] == "input"}), len([e for e in walk(page) if e[0] == "input"]))
    # Operations.
    for k, t in KINDS.items():
        want = []
        for a in A:
            v = a["access"][t]
            want += [v] if isinstance(v, str) else v or []
        sec = byid(page, "kwbp-audit-byoperation-" + k)
        for e in walk(sec):
            if "audit-function-%s-count" % k in classes(e):
                expect("number of operations", (k, text(e)), (k, str(len(want))))
                chk.count("numbers")
        l, no = byid(sec, "kwbp-audit-%s-list" % k), byid(sec, "kwbp-audit-no" + k)
        expect("list of operations is shown", (k, l is not None, no is not None), (k, bool(want), not want))
        alike("operations: " + k, [words(e) for e in codes(l)] if l else [], want)
        for e in codes(l) if l else []:
            follow(chk, J, res, e, words(e), None, None)
        expect("mark of lack of operations", "noop" in classes(sec), not want)


def structure(chk, J, res, s, a, alike):
    n, acc = a["name"], a["access"]
    inputs = [e for e in walk(s) if e[0] == "input"]
    labels = [e for e in walk(s) if e[0] == "label"]
    nq = sum(len(acc[k]) for k in ("get", "count", "list", "iterate"))
    pct = percents(a, J)
    for l in labels:
        w = words(l).split(" ")
        if w[:1] != [n] or w[1] not in pct or w[2:] != [str(len(acc["update"])), str(len(acc["delete"])), str(nq), "1" if acc["insert"] else "0"]:
            raise Wrong("summary of a structure", "%r: %r" % (n, w))
    expect("views of a structure", (len(inputs), len(labels)), (1, 2))
    if inputs[0][1].get("id") not in [l[1].get("for") for l in labels]:
        raise Wrong("view of a structure can't be opened", repr(inputs))
    has = "data" in acc
    nothing = not (has or acc["insert"] or nq or acc["update"] or acc["delete"])
    expect("mark of a structure without access", "noop" in classes(s), nothing)
    # Parts below headings.
    parts, at = {}, None

    def rec(e):
        nonlocal at
        if isinstance(e, str):
            if at is not None:
                parts[at].append(e)
        elif e[0] == "h4":
            at = words(e)
            if at in parts:
                raise Wrong("repeated heading", at)
            parts[at] = []
        elif e[0] in ("div", "code") or at is None and e[0] == "header":
            if at is not None:
                parts[at].append(e)
        else:
            for c in e[2]:
                rec(c)
    rec(s)
    want = {"Data fields"} | {"%s functions" % x.capitalize() for x in TITLES.values()} | ({"Data access"} if has else set())
    expect("headings", set(parts), want)
    els = {k: [e for e in v if not isinstance(e, str)] for k, v in parts.items()}
    rest = {k: " ".join("".join(e for e in v if isinstance(e, str)).split()) for k, v in parts.items()}
    got = [words(codes(e)[0]) for e in els["Data fields"] if codes(e)]
    alike("fields", got, acc["data"] if has else [])
    expect("note of lack of data", bool(rest["Data access" if has else "Data fields"]), not has)
    for e in els["Data fields"]:
        f = words(codes(e)[0])
        exp = acc["exportable"] and J["fields"]["%s.%s" % (n, f)]["export"]
        cl = {c for x in walk(e) for c in classes(x)}
        expect("export of a field", ("audit-data-field-export" in cl, "audit-data-field-noexport" in cl), (exp, not exp))
        chk.count("fields exported" if exp else "fields withheld")
        follow(chk, J, res, codes(e)[0], f, n, exp)
    if has:
        paths = {}
        for x in acc["accessfrom"]:
            paths.setdefault(x["function"], []).append(x)
        alike("access", [words(codes(e)[0]) for e in els["Data access"]], list(paths))
        for e in els["Data access"]:
            f = words(codes(e)[0])
            l = paths[f]
            expect("number of paths", re.search(r": *(\d+)", words(e)).group(1), str(len(l)))
            cl = {c for x in walk(e) for c in classes(x)}
            expect("access that exports", "audit-data-accessfrom-exporting" in cl, any(x["exporting"] for x in l))
            follow(chk, J, res, codes(e)[0], f, None, None, l)
    for k, title in TITLES.items():
        h = "%s functions" % title.capitalize()
        v = acc[k]
        v = [v] if isinstance(v, str) else v or []
        got = [words(x) for e in els[h] for x in codes(e)]
        alike("functions of a structure: " + k, got, v)
        expect("note of lack of functions", (h, bool(rest[h])), (h, not v))
        for e in els[h]:
            for x in codes(e):
                follow(chk, J, res, x, words(x), None, None)
    chk.count("structures")


def follow(chk, J, res, e, name, strct, exported, paths=None):
    """What's shown after a click."""
    if e[3] is None:
        raise Wrong("link does nothing", name)
    a = res["clicks"].get(str(e[3]), "none")
    if a == "none":
        return
    chk.count("links followed")
    if a is None:
        raise Wrong("link shows nothing", name)
    secs = [x for x in walk(a) if x[0] == "section"]
    expect("parts shown by a link", len(secs), 1)
    sec = secs[0]
    head = [x for x in walk(sec) if x[0] == "header"][0]
    full = name if strct is None else "%s.%s" % (strct, name)
    expect("name shown by a link", words(codes(head)[0]), full)
    if strct is not None:
        doc = J["fields"][full]["doc"]
        expect("export shown by a link", re.sub(r".*\((.*)\).*", r"\1", words(head)), "exported" if exported else "not exported")
    else:
        doc = J["functions"][name]["doc"]
        kind = J["functions"][name]["type"]
        expect("kind shown by a link", words(head).split(":")[0].lower(), "access path" if paths is not None else TITLES[kind])
        if kind == "insert":
            return
    arts = [x for x in walk(sec) if x[0] == "article"]
    expect("documentations shown by a link", len(arts), 1)
    if any(not isinstance(c, str) for c in arts[0][2]):
        raise Wrong("documentation as markup", repr(arts))
    none = "audit-noentry" in classes(arts[0])
    expect("documentation shown by a link", None if none else text(arts[0]), doc)
    if paths is not None:
        got = sorted(" ".join(words(x) for x in li[2]) for li in walk(sec) if li[0] == "li")
        want = sorted("(self)" if x["path"] == "" else x["path"] + (" (exporting)" if x["exporting"] else "") for x in paths)
        expect("paths", got, want)
        chk.count("paths", len(want))


def main(chk):
    b = common.build()
    tool = os.path.join(b, "ort-audit-json")
    root = common.scratch("p25")
    with open(os.path.join(common.REPO, "audit.html"), encoding="utf-8") as f:
        page = Html(f.read()).root
    with open(os.path.join(root, "page.json"), "w") as f:
        json.dump(page, f)

    def one(k):
        jobs, want = [], []
        d = os.path.join(root, str(k))
        os.makedirs(d)
        for i in range(k * 20, k * 20 + 20):
            r = chk.sub(i)
            c = big.fields(r, 300) if i == 7 else gen.gen_config(r.randrange(1 << 30), gen.Opts(
                structs=(1, 5), queries=(0, 7), text="wild" if i % 2 else "plain", docs=.5, roles=1 if i % 6 else 0))
            for o in [s for s in c.structs] + [f for s in c.structs for f in s.fields] + [q for s in c.structs for q in s.searches + s.updates + s.deletes]:
                if o.doc is not None and r.random() < .15:
                    o.doc = r.choice(("<b>bold</b>", "</script><script>alert(1)</script>", "&amp; &lt;", "*/ // '", "${x}", "__proto__", "<!-- x"))
            for n, (st, f) in enumerate([(st, f) for st in c.structs for f in st.fields if f.type == "struct"]):
                if r.random() < .5:                       # Further paths to the same structure
                    st.fields.append(cfg.Field("again%dzq" % n, "struct", src=f.src, noexport=r.random() < .6))
            src = cfg.to_text(c)
            with open(os.path.join(d, "%d.ort" % i), "w", encoding="utf-8") as f:
                f.write(src)
            roles = ["all", "default", "none"] + [x.name for x, _ in c.all_roles()] if c.roles is not None else ["all", "default"]
            for role in r.sample(roles, min(len(roles), 2)):
                x = common.run([tool, "-s", "-r", role, "%d.ort" % i], cwd=d)
                y = common.run([tool, "-r", role, "%d.ort" % i], cwd=d)
                if x.rc or y.rc:
                    chk.count("without audit")
                    continue
                fn = os.path.join(d, "%d-%s.js" % (i, role))
                with open(fn, "w", encoding="utf-8", errors="surrogateescape") as f:
                    f.write(x.out)
                try:
                    J = json.loads(y.out)
                except ValueError:
                    chk.count("without audit")
                    continue
                jobs.append({"audit": fn, "seed": r.randrange(1 << 30), "clicks": 60})
                want.append((J, {"in.ort": src, "audit-out.js": x.out}))
        for t in ("", "var audit = null;", "this.audit = 'x';"):
            fn = os.path.join(d, "none%d.js" % len(jobs))
            with open(fn, "w") as f:
                f.write(t)
            jobs.append({"audit": fn, "seed": 1, "clicks": 5})
            want.append((None, {"audit-out.js": t}))
        p = os.path.join(d, "jobs.json")
        with open(p, "w") as f:
            json.dump(jobs, f)
        x = common.run(["node", DRV, os.path.join(common.REPO, "audit.js"), os.path.join(root, "page.json"), p], timeout=300, cpu=250)
        out = x.out.split("\n")[:-1]
        if x.timeout or x.rc or len(out) != len(jobs):
            return chk.violation("the page can't be run", x.err[-3000:], {}) if not x.timeout and "SyntaxError" in x.err else chk.unsure("page: " + x.err[-300:])
        for (J, fs), l in zip(want, out):
            if chk.too_many():
                return
            res = json.loads(l)
            if res["err"]:
                chk.violation("the page fails: " + re.sub(r"[\d'\"].*", "", res["err"].split("\n")[0])[:80], res["err"], fs)
                continue
            if J is None:
                got = [i for i in ("kwbp-parsed", "kwbp-parsing", "kwbp-parseerr") if byid(res["page"], i) is not None]
                if got != ["kwbp-parseerr"]:
                    chk.violation("lack of an audit isn't shown", repr(got), fs)
                chk.count("pages without audit")
                continue
            if res["log"]:
                chk.violation("the page misses what the audit has", "\n".join(res["log"]), fs)
                continue
            try:
                judge(chk, J, res)
                if res["close"]:
                    raise Wrong("the aside doesn't close", "")
            except Wrong as e:
                chk.violation("page: " + e.args[0], e.args[1], fs)
                continue
            chk.count("pages")
            chk.ev((J["role"] in ("all", "default", "none"), J["doc"] is not None,
                    tuple((a["access"].get("exportable"), min(len(a["access"].get("accessfrom", ())), 5), a["access"]["insert"] is not None)
                          + tuple(min(len(a["access"][k]), 2) for k in ("update", "delete", "get", "list")) for a in J["access"])),
                   sample="role %s: %d structures, %d functions, %d links" % (J["role"], len(J["access"]), len(J["functions"]), len(res["clicks"])))
        shutil.rmtree(d, ignore_errors=True)

    common.pmap(one, range(scale(32, 500)))
    chk.rule = ("audit pages (audit.html, audit.js) run in a document model with the output of ort-audit-json -s, read as visible text and "
                "compared with the audit; distinct: kinds of roles, documentation and accesses per structure")
    shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(common.main("P25", main))
