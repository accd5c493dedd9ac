"""Bytes of ort(5) files as tokens, kept apart from what is between them."""
import bisect


class Odd(Exception):
    pass


WS = b" \t\r\n\v\f"


def lex(b):
    """[(start, end)] of tokens; raises Odd on what has no such division."""
    out, i, n = [], 0, len(b)
    while i < n:
        c = b[i:i + 1]
        if c in (b"\0",):
            raise Odd("nul")
        if c in WS:
            i += 1
        elif c == b"#":
            while i < n and b[i:i + 1] != b"\n":
                i += 1
        elif c == b'"':
            j = i + 1
            while True:
                if j >= n:
                    raise Odd("string")
                if b[j:j + 1] == b'"' and (j == i + 1 or b[j - 1:j] != b"\\"):
                    break
                j += 1
            out.append((i, j + 1))
            i = j + 1
        elif c in b"{};,.:":
            out.append((i, i + 1))
            i += 1
        elif c.isalnum() or c == b"-":
            j = i + 1
            if c == b"-" or c.isdigit():
                while j < n and (b[j:j + 1].isdigit() or b[j:j + 1] == b"."):
                    j += 1
                if b[i:j] == b"-":
                    raise Odd("dash")
            else:
                while j < n and b[j:j + 1].isalnum():
                    j += 1
            out.append((i, j))
            i = j
        else:
            raise Odd("character")
    return out


def spaced(r, toks, glued, style):
    """Put tokens together again, with other space between them."""
    out = []
    for k, t in enumerate(toks):
        if k:
            a = toks[k - 1]
            if k in glued:
                s = b""
            elif (a in b"{};,:" or t in b"{};,:") and r.random() < .5:
                s = b""
            else:
                s = r.choice((b" ", b" ", b"  ", b"\t", b"\n", b"\n\n", b" \n ", b"\r\n", b" # x; y }\n", b"\n#\n\t")) \
                    if style else r.choice((b" ", b"\n"))
            out.append(s)
        elif style:
            out.append(r.choice((b"", b"\n", b"# top\n", b"   ", b"\n\n\n\n\n")))
        out.append(t)
    out.append(r.choice((b"\n", b"\n", b"", b"\n\n", b" \n# end\n")))
    return b"".join(out)


class Where:
    """Which token is at a line and column?"""

    def __init__(self, b):
        self.b, self.sp = b, lex(b)
        self.nl = [-1] + [i for i in range(len(b)) if b[i] == 10]
        self.ends, self.lines = {}, {}
        for k, (s, e) in enumerate(self.sp):
            l = bisect.bisect_left(self.nl, e) - 1
            self.ends[(l + 1, e - self.nl[l] - 1)] = k
            l0 = bisect.bisect_left(self.nl, s) - 1
            self.lines.setdefault(l + 1, []).append((s - self.nl[l0] if l0 == l else 0, e - self.nl[l] - 1, k))

    def tok(self, line, col):
        """Index of the token, "end" if it's the last or beyond, None if none is there."""
        k = self.tok1(line, col)
        return "end" if k == len(self.sp) - 1 else k

    def tok1(self, line, col):
        if (line, col) in self.ends:
            return self.ends[(line, col)]
        l = self.lines.get(line)
        if l and col == 0:
            return l[-1][2]
        for s, e, k in l or ():
            if s <= col <= e + 1:
                return k
        if l and (col == 0 or col > max(x[1] for x in l)):
            return l[-1][2]
        if line == len(self.nl) or line == len(self.nl) + 1 or \
                (self.sp and line > max(self.lines)):
            return "end"
        return None


def statement(toks, k):
    """Range of the innermost statement that token k is of (its blocks'
    contents are other statements'), or None."""
    best = None
    stack = [[0]]
    depth0 = []
    st = [0]                    # starts of open statements
    for i, t in enumerate(toks):
        if t == b"{":
            st.append(i + 1)
        elif t == b"}":
            if len(st) < 2:
                return None
            if st[-1] != i:
                return None
            st.pop()
        elif t == b";":
            a = st[-1]
            if a <= k <= i and (best is None or i - a < best[1] - best[0]):
                best = (a, i)
            st[-1] = i + 1
    if len(st) != 1 or st[0] != len(toks):
        return None
    return best


def owners(toks):
    """The innermost statement that each token is of, as a path of numbers."""
    ids, n, out = [0], 0, []
    for t in toks:
        out.append(tuple(ids))
        if t == b"{":
            n += 1
            ids.append(n)
        elif t == b"}":
            if len(ids) > 1:
                ids.pop()
            out[-1] = tuple(ids)
        elif t == b";":
            n += 1
            ids[-1] = n
    return out
