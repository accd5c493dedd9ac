"""Workloads shared by the checks: seed corpora, mutators, tool runners."""
import glob, os, random
import common, cfg, gen

CONFIG_TOOLS = ("ort", "ort-audit", "ort-audit-json", "ort-c-header", "ort-c-manpage", "ort-c-source",
                "ort-javascript", "ort-json", "ort-nodejs", "ort-rust", "ort-sql", "ort-xliff")

KW = ("struct field enum bits bitfield roles role item unique search list iterate count insert update delete "
      "name comment limit offset order asc desc rowid null noexport default ge le gt lt eq neq like and or "
      "streq strneq isnull notnull actup actdel cascade restrict nullify none all int real text blob email "
      "password passwd epoch date enum bit jslabel isunset minrow maxrow grouprow distinct set inc dec concat "
      "strset { } ; , . : 0 1 -1 64 2147483648 9223372036854775807 9223372036854775808 -9223372036854775808 "
      "99999999999999999999 1.5 .5 1. 2020-01-01 2020-02-30 \"x\" \"\" \" # \\ \0").split(" ")


def seeds():
    """name -> bytes of every configuration shipped with the tests."""
    out = {}
    for f in sorted(glob.glob(os.path.join(common.REPO, "regress", "**", "*.ort"), recursive=True)):
        with open(f, "rb") as fh:
            out[os.path.relpath(f, common.REPO)] = fh.read()
    return out


def tokens(b):
    """Crude tokenisation used by the mutators (bytes in, list of bytes)."""
    import re
    return re.findall(rb'"(?:[^"\\]|\\.)*"|[A-Za-z0-9_]+|\s+|.', b, re.S)


def mutate_bytes(r, b, other=b""):
    b = bytearray(b)
    for _ in range(r.choice((1, 1, 2, 4, 8))):
        k = r.randrange(7)
        i = r.randrange(len(b) + 1)
        if k == 0 and b:
            b[i % len(b)] = r.choice((0, 9, 10, 13, 34, 35, 45, 46, 92, 123, 125, 127, 128, 255, r.randrange(256)))
        elif k == 1:
            b[i:i] = bytes([r.randrange(256)])
        elif k == 2:
            del b[i:i + r.choice((1, 2, 5, 40))]
        elif k == 3:
            del b[i:]
        elif k == 4 and b:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice((4, 30, 200))]
        elif k == 5 and other:
            j = r.randrange(len(other))
            b[i:i] = other[j:j + r.choice((10, 50, 300))]
        else:
            b[i:i] = r.choice(KW).encode()
    return bytes(b)


def mutate_tokens(r, b, other=b""):
    t = tokens(b)
    o = tokens(other) or [b";"]
    for _ in range(r.choice((1, 1, 1, 2, 3, 6))):
        if not t:
            break
        i = r.randrange(len(t))
        k = r.randrange(8)
        if k == 0:
            del t[i]
        elif k == 1:
            t[i] = r.choice(KW).encode()
        elif k == 2:
            t.insert(i, b" " + r.choice(KW).encode() + b" ")
        elif k == 3:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == 4:
            j = r.randrange(len(t))
            t[i] = t[j]
        elif k == 5:
            j = r.randrange(len(o))
            t[i:i] = [b" "] + o[j:j + r.choice((3, 10, 40))]
        elif k == 6:
            j = min(len(t), i + r.choice((2, 5, 15)))
            t[i:i] = [b" "] + t[i:j]
        else:
            del t[i:i + r.choice((2, 5, 15))]
    return b"".join(t)


def enc(s):
    return s.encode("utf-8", "surrogateescape")


def write(d, name, data):
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else enc(data))
    return p


def share(b):
    """The tree's template files, for tools taking -S."""
    return b


def argv(b, t, r=None, role=None):
    """Command line of a configuration-reading tool with random options."""
    def yes(p=.5):
        return r is not None and r.random() < p
    a = [os.path.join(b, t)]
    if t == "ort-audit":
        a += (["-v"] if yes() else [])
        if role or yes():
            a += ["-r", role or r.choice(("default", "all", "none", "nosuch"))]
    elif t == "ort-audit-json":
        a += (["-s"] if yes() else [])
        if role or yes():
            a += ["-r", role or r.choice(("default", "all", "none", "nosuch"))]
    elif t == "ort-c-header":
        for o in ("-j", "-J", "-s", "-v"):
            a += [o] if yes() else []
        if yes(.3):
            a += ["-N", r.choice("bd") if yes() else "bd"]
        if yes(.3):
            a += ["-g", r.choice(("", "FOO_H"))]
    elif t == "ort-c-source":
        for o in ("-j", "-J", "-v"):
            a += [o] if yes() else []
        if yes(.3):
            a += ["-N", r.choice("bd") if yes() else "bd"]
        if yes(.3):
            a += ["-h", r.choice(("", "a.h", "a.h,b.h", ",", "a.h,"))]
        if yes(.3):
            a += ["-I", r.choice(("v", "b", "d", "j", "vbdj", "q"))]
        a += ["-S", share(b)]
    elif t == "ort-c-manpage":
        for o in ("-j", "-J", "-v"):
            a += [o] if yes() else []
    elif t == "ort-javascript":
        a += ["-S", share(b)]
        a += ["-t"] if yes() else []
    elif t == "ort-nodejs":
        a += ["-e"] if yes() else []
        a += ["-v"] if yes() else []
        if yes(.3):
            a += ["-N", r.choice("bd") if yes() else "bd"]
    return a
