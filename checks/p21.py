#!/usr/bin/env python3
"""P21: ort-json.ts fills pages with the configuration."""
import copy, json, os, shutil, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, cfg, gen, jsonpage
from common import scale
import p15

DRV = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "js", "ortpage.js")
KINDS = ("strct", "query", "update", "field", "enm", "eitem", "bitf", "bitindex", "role")
PRE = ("", "x-", "a/b/", "é:", "strcts", "p q")


def bend(r, j):
    """States that pages have classes for although ort-json(1) doesn't have them now."""
    for s in j["sq"].values():
        for f in s["fq"].values():
            if f["type"] == "enum" and r.random() < .5 and j["eq"][f["enm"]]["eq"]:
                f["fvq"] = [{"type": r.choice(("ge", "lt", "eq")), "limit": x} for x in j["eq"][f["enm"]]["eq"]]
    for e in list(j["eq"].values()) + list(j["bq"].values()):
        for x in (e.get("eq") or e.get("bq") or {}).values():
            if x["value"] is not None and r.random() < .3:
                x["value"] = int(x["value"])
        for k in ("eq", "bq"):
            if k in e and r.random() < .2:
                e[k] = {}
    if r.random() < .2:
        j["sq"] = {}
    if r.random() < .2:
        j["rq"] = None
    return j


def main(chk):
    b = common.build()
    tool = os.path.join(b, "ort-json")
    root = common.scratch("p21")
    lock = threading.Lock()

    def convert(text, name):
        d = os.path.join(root, name)
        os.makedirs(d)
        p = os.path.join(d, "a.ort")
        with open(p, "wb") as f:
            f.write(text.encode("utf-8"))
        x = common.run([tool, "a.ort"], cwd=d)
        if x.rc or x.san:
            return None, None
        q = os.path.join(d, "a.json")
        with open(q, "wb") as f:
            f.write(x.out.encode("utf-8", "surrogateescape"))
        try:
            return q, json.loads(x.out)["config"]
        except (ValueError, KeyError):
            return None, None

    _, full = convert(jsonpage.FULL, "full")
    if full is None:
        return chk.unsure("no JSON to start with")
    cat = jsonpage.catalog(full)
    pool = []

    def configs(i):
        r = chk.sub("c", i)
        o = gen.Opts(structs=(1, 4) if i % 4 else (1, 2), text="wild", roles=.7)
        c = gen.gen_config(r.randrange(1 << 30), o)
        p15.spice(r, c)
        if i % 9 == 0:
            c.enums = [e for e in c.enums if any(f.type == "enum" and f.tname == e.name for s in c.structs for f in s.fields)]
            c.bitfs = [e for e in c.bitfs if any(f.type == "bits" and f.tname == e.name for s in c.structs for f in s.fields)]
        q, j = convert(cfg.to_text(c), "c%d" % i)
        if q is None:
            return chk.count("without JSON")
        if i % 5 == 1:
            j = bend(r, j)
            with open(q, "w") as f:
                json.dump({"config": j}, f)
        with lock:
            pool.append((i, q, j))

    common.pmap(configs, range(scale(240, 900)))
    pool.sort()
    if len(pool) < 20:
        return chk.unsure("configurations without JSON")

    def something(r, c):
        """A part of a configuration and how to fill it in: call, path, scope, extras."""
        l = [("fillStrctSet", [], "top"), ("fillEnumSet", [], "top"), ("fillBitfSet", [], "top"), ("fillRoleSet", [], "top")]
        for s in c["sq"]:
            l += [("fillStrctObj", ["sq", s], "strct"), ("fillFieldSet", ["sq", s], "strct")]
            l += [("fillFieldObj", ["sq", s, "fq", f], "field") for f in c["sq"][s]["fq"]]
            for k, call, sc in (("uq", "fillUpdateObj", "update"), ("dq", "fillUpdateObj", "update"), ("sq", "fillSearchObj", "query")):
                q = c["sq"][s][k]
                l += [(call, ["sq", s, k, "named", n], sc) for n in q["named"]] + [(call, ["sq", s, k, "anon", n], sc) for n in range(len(q["anon"]))]
        for e in c["eq"]:
            l += [("fillEnumObj", ["eq", e], "enum")] + [("fillEnumItemObj", ["eq", e, "eq", x], "enumitem") for x in c["eq"][e]["eq"]]
        for e in c["bq"]:
            l += [("fillBitfObj", ["bq", e], "bitf")] + [("fillBitIndexObj", ["bq", e, "bq", x], "bitindex") for x in c["bq"][e]["bq"]]
        l += [("fillRoleObj", ["rq", x], "role") for x in c["rq"] or {}]
        call = r.choice(sorted({x[0] for x in l}))
        return r.choice([x for x in l if x[0] == call])

    KIND = {"fillStrctObj": "strct", "fillFieldObj": "field", "fillUpdateObj": "update", "fillSearchObj": "query", "fillEnumObj": "enm",
            "fillEnumItemObj": "eitem", "fillBitfObj": "bitf", "fillBitIndexObj": "bitindex", "fillRoleObj": "role"}

    def env(P, j, o):
        """The classes at the root of what's filled in, and its callback."""
        at = j
        for k in o["at"]:
            at = at[k]
        c = o["call"]
        if c in ("fill", "fillByClass"):
            return P.top(), None
        if c == "nothing":
            return {}, None
        d = {"fillStrctSet": P.strcts, "fillEnumSet": P.enums, "fillBitfSet": P.bitfs}.get(c)
        if d:
            return d(), None
        if c == "fillRoleSet":
            return P.roles(o["exclude"] or ()), None
        if c == "fillFieldSet":
            return P.fields(at, o["exclude"] or ()), None
        if c == "fillUpdateObj":
            e = P.update(at, o["kind"], o["pos"])
        elif c == "fillSearchObj":
            e = P.query(at, o["pos"])
        else:
            e = {"fillStrctObj": P.strct, "fillFieldObj": P.field, "fillEnumObj": P.enum, "fillEnumItemObj": P.enumitem,
                 "fillBitfObj": P.bitf, "fillBitIndexObj": P.bitindex, "fillRoleObj": P.role}[c](at)
        return P.item(KIND[c], at, e)

    def job(r):
        """A page, calls to fill it in, and what should become of it."""
        i, q, c = r.choice(pool)
        x = r.random()
        byid = None
        if x < .45:
            call, at, scope = r.choice(("fill", "fill", "fillByClass")), [], "top"
        elif x < .48:
            call, at, scope = "nothing", [], "top"
        else:
            call, at, scope = something(r, c)
        M = jsonpage.Maker(r, cat)
        if call == "fillByClass":
            page = ["div", {"class": "note"} if r.random() < .8 else {"class": "note page"}, []]
            for _ in range(r.randint(1, 3)):
                k = M.tree(["top"], frozenset(), root=True)
                if r.random() < .7:
                    k[1]["class"] = (k[1].get("class", "") + " page").strip()
                page[2].append(k)
            if "page" in page[1]["class"].split():
                page[2] = [k for k in page[2] if "page" not in k[1].get("class", "").split()] or ["nothing"]
        else:
            page = M.tree([scope], frozenset(), root=call in ("fill", "nothing"))
        ids = lambda t: not isinstance(t, str) and (any(k in cat["top"] and cat["top"][k] == "attr id" for k in t[1].get("class", "").split()))
        if call in ("fill", "fillByClass") and r.random() < .4 and not ids(page):
            byid = page[1]["id"] = "page-%d" % r.randrange(100)
        kinds = sorted(k for k in KINDS if r.random() < .8)
        cb = r.random() < .6
        calls, wants = [], []
        seen = set()
        for n in range(r.choice((1, 1, 1, 2, 2, 3))):
            if n and not at:
                i, q, c = r.choice(pool)
            o = {"config": q, "call": call, "at": at, "root": byid, "kinds": kinds, "cb": None, "exclude": None, "kind": None, "pos": 0,
                 "prefixes": None}
            if n and at:
                l = [x for x in (something(r, c) for _ in range(30)) if x[0] == call]
                if l:
                    o["at"] = r.choice(l)[1]
            if cb:
                o["cb"] = "arg%d" % r.randrange(1000)
            if r.random() < .6:
                o["prefixes"] = {k: r.choice(PRE) for k in ("strcts", "roles", "enums", "bitfs")}
            if call == "fillRoleSet" and r.random() < .6:
                o["exclude"] = [x for x in c["rq"] or {} if r.random() < .5] + ["nonesuch"]
            if call == "fillFieldSet" and r.random() < .6:
                o["exclude"] = [x for x in c["sq"][o["at"][1]]["fq"] if r.random() < .5] + ["nonesuch"]
            if call == "fillUpdateObj":
                o["kind"] = "updates" if o["at"][2] == "uq" else "deletes"
            if call in ("fillUpdateObj", "fillSearchObj"):
                o["pos"] = r.randrange(20)
            P = jsonpage.Page(c, o["prefixes"], o["cb"], kinds)
            e, k = env(P, c, o)
            if call == "fillByClass":
                w = jsonpage.outside(page, "page", e, n > 0, seen)
            else:
                w = jsonpage.render(page, e, n > 0, k, seen)
                if call == "fill":
                    w.hidden = False
            calls.append(o)
            wants.append(w)
        return {"page": page, "calls": calls}, wants, seen, M.outer, i

    def batch(k):
        if chk.too_many():
            return
        r = chk.sub("b", k)
        js = [job(r) for _ in range(scale(25, 40))]
        p = os.path.join(root, "jobs%d.json" % k)
        with open(p, "w") as f:
            json.dump([j[0] for j in js], f)
        x = common.run(["node", DRV, p15.MODS + "/typescript/lib/typescript.js", os.path.join(common.REPO, "ort-json.ts"), p], timeout=300, cpu=200)
        os.unlink(p)
        if x.timeout:
            return chk.unsure("timeout")
        lines = x.out.split("\n")[:-1]
        if x.rc or len(lines) != len(js):
            return chk.violation("ort-json.ts doesn't run", "%s %d of %d\n%s" % (x.rc, len(lines), len(js), x.err[-2000:]), {"err.txt": x.err[-4000:]})
        for (j, wants, seen, outer, ci), ln in zip(js, lines):
            res = json.loads(ln)
            for n, (w, g) in enumerate(zip(wants, res)):
                o = j["calls"][n]
                fs = {"page.json": json.dumps(j["page"], ensure_ascii=False), "calls.json": json.dumps(j["calls"]),
                      "got.json": json.dumps(g["page"], ensure_ascii=False), "config.json": open(o["config"], "rb").read().decode("utf-8", "surrogateescape")}
                again = " again" if n else ""
                if g["err"] is not None:
                    chk.violation("%s throws: %s" % (o["call"], g["err"].split("\n")[0][:80]), g["err"], fs)
                    break
                if not g["kept"]:
                    chk.violation("%s changes the configuration" % o["call"], "", fs)
                    break
                df = jsonpage.diff(g["page"], w)
                if df:
                    last = df[1].split(":")[0].split("/")[-1]
                    want = {"shown": ("hide", "list"), "hidden": ("hide", "list"), "children": ("list", "text"), "text": ("text",)}.get(df[0], ("attr" + df[0][9:],))
                    cs = [c for c in last.split(".")[1:] if any(m.get(c, "").startswith(want) for m in cat.values())]
                    chk.violation("%s%s: %s of %s" % (o["call"], again, df[0], " ".join(cs) or "element"), df[1], fs)
                    break
                if not outer and sorted(g["log"]) != sorted(jsonpage.calls(w)):
                    chk.violation("%s%s: callbacks" % (o["call"], again), "%s for %s" % (sorted(g["log"]), sorted(jsonpage.calls(w))), fs)
                    break
                chk.count("pages")
                chk.count("elements", jsonpage.count(g["page"]))
                chk.count("callbacks", len(g["log"]))
                chk.count("filled again", n > 0)
            for s in seen:
                chk.ev(s)

    common.pmap(batch, range(scale(100, 500)))
    chk.count("configurations", len(pool))
    shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(common.main("P21", main))
