"""What an mdoc(7) page of generated C documentation says."""
import re


class Page:
    def __init__(self, text):
        self.protos = []                  # (return type, name, [arguments])
        self.faults = []
        self.docs = {}                    # key of an item -> lines of text after it
        self.only = {}                    # function -> roles
        self.tables = {}                  # function -> rows of columns
        self.items = []
        self.desc = []                    # (return type, name) of descriptions
        self.parse(text)

    def args(self, s, ln):
        """Arguments of a macro."""
        out, i = [], 0
        while i < len(s):
            if s[i] == " ":
                i += 1
            elif s[i] == '"':
                j = s.find('"', i + 1)
                if j < 0:
                    self.faults.append(("unterminated quote", ln))
                    j = len(s)
                out.append(s[i + 1:j])
                i = j + 1
            else:
                j = i
                while j < len(s) and s[j] != " ":
                    j += 1
                out.append(s[i:j])
                i = j
        return out

    def text(self, l):
        l = l.replace("\\&", "").replace("\\e", "\0").replace("\\(en", "-")
        if "\\" in l:
            self.faults.append(("escape sequence from text", l))
        return l.replace("\0", "\\")

    def parse(self, text):
        sec = sub = ret = fo = strct = key = None
        table = False
        for ln in text.split("\n"):
            if ln.startswith("."):
                m = re.match(r"\.([A-Za-z]\w*|\\\".*)(?: (.*))?$", ln)
                if not m:
                    self.faults.append(("not a request", ln))
                    continue
                mac, rest = m.group(1), m.group(2) or ""
                if mac.startswith("\\\""):
                    continue
                if mac not in KNOWN:
                    self.faults.append(("unknown request", ln))
                    continue
                a = self.args(rest, ln)
                if mac in ("TS", "TE"):
                    table = mac == "TS"
                    continue
                if mac == "Sh":
                    sec, sub, key = " ".join(a), None, None
                elif mac == "Ss":
                    sub, key = " ".join(a), None
                elif sec == "SYNOPSIS":
                    if mac == "Ft":
                        ret = " ".join(a)
                    elif mac == "Fo":
                        fo = (ret, a[0], [])
                        if len(a) != 1:
                            self.faults.append(("name of a function", ln))
                    elif mac == "Fa" and fo:
                        fo[2].extend(a)
                    elif mac == "Fc" and fo:
                        self.protos.append(fo)
                        fo = None
                elif mac == "It":
                    key = None
                    if a[:1] == ["Vt"]:
                        strct = " ".join(a[1:])
                        key = (strct,)
                    elif a[:1] == ["Va"]:
                        key = (strct, " ".join(a[1:]))
                    elif a[:1] == ["Dv"]:
                        key = (strct if sub == "Data structures" else None, " ".join(a[1:]))
                    elif a[:1] == ["Ft"] and "Fn" in a:
                        ns = [x for x in a[a.index("Fn") + 1:] if x not in (",", "Fn")]
                        key = ("Fn", ns[0])
                        self.desc += [(" ".join(a[1:a.index("Fn")]), x) for x in ns]
                    self.items.append(key)
                    self.docs.setdefault(key, [])
                elif mac == "El":
                    key = None
                elif mac == "Vt":
                    strct = " ".join(a)
                elif mac == "Dv" and key and key[0] == "Fn" and key in self.only:
                    self.only[key].append(a[0])
                continue
            if ln.startswith("'"):
                self.faults.append(("text taken as a request", ln))
                continue
            if table and key:
                if not re.match(r"[l ]*\.$", ln):
                    self.tables.setdefault(key, []).append(ln.split("\t"))
                continue
            if ln == "" or key is None:
                continue
            if ln in ("Only allowed to the following:", "Only allowed to the following: ."):
                self.only.setdefault(key, [])
                continue
            self.docs[key].append(self.text(ln))


KNOWN = set("Dd Dt Os Nm Nd Sh Ss Ft Fo Fa Fc Vt Bl El It Dv Fn Pp Va TS TE Pq Qq Xr Em Cm Li Sx".split())
