"""Abstract documents: trees of elements and token texts, their rendering as
HTML and as arenas for the specification, and the mapping of observed text
back to tokens."""
import re

VOID = {"area", "base", "br", "col", "command", "embed", "hr", "img", "input", "link", "meta", "param", "source", "wbr"}
COMMAS = ",\u060c\ufe50\ufe10\ufe11\u2e41\u2e34\u2e32\uff0c"
WS = {0: " ", -1: "\n", -2: "\u00a0"}
SP, NL, NB = 0, -1, -2
RAWTAIL = ["", ";for(i=0;i<n;i++){}", "; a<b && c>d", " '<div><p>'", " <!-- x -->", " \"</p></div>\""]
MARK = re.compile(r"k(\d+)q")
WORDS = ("lorem ipsum dolor sit amet consectetur adipiscing elit sed do eiusmod tempor incididunt ut labore "
         "et dolore magna aliqua enim minim veniam quis nostrud").split()


def esc_text(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def esc_attr(s):
    return esc_text(s).replace('"', "&quot;").replace("'", "&apos;")


class El:
    __slots__ = ("g", "a", "k")

    def __init__(self, g, a=None, k=()):
        self.g, self.a, self.k = g, list((a or {}).items()) if isinstance(a, dict) or a is None else list(a), list(k)


class Tx:
    __slots__ = ("x",)

    def __init__(self, *x):
        self.x = list(x)


class Doc:
    """A document under construction: owns the chunk table."""

    def __init__(self, rng):
        self.rng, self.ch = rng, []

    def chunk(self, n, commas=0, wide=0, dot="", multi=0, amp=0, words=None, text=None):
        """A new text chunk of exactly n characters; yields its token."""
        t = len(self.ch) + 1
        s = "k%dq" % t
        if text is not None:
            s = s + " " + text if text else s
        else:
            n = max(n, len(s) + (1 if dot == "end" else 0))
            body = []
            r = self.rng
            while len(s) < n:
                w = r.choice(WORDS)
                s += " " + w
            s = s[:n]
            if s[-1] == " ":
                s = s[:-1] + "x"
            L = list(s)
            pos = [i for i in range(len("k%dq" % t) + 1, len(L) - 2) if L[i] != " "]
            r.shuffle(pos)

            def put(c, i):
                L[i] = c
            for _ in range(commas):
                if pos:
                    put(",", pos.pop())
            for _ in range(wide):
                if pos:
                    put(r.choice(COMMAS[1:]), pos.pop())
            for _ in range(multi):
                if pos:
                    put(r.choice("éüñж中"), pos.pop())
            for _ in range(amp):
                if pos:
                    put(r.choice("&<>\"'"), pos.pop())
            if dot == "end":
                L[-1] = "."
            elif dot == "mid":
                i = next((i for i in range(len(L) - 3, 6, -1) if L[i] == " " and L[i - 1] not in ", "), None)
                if i:
                    L[i - 1] = "."
            elif dot == "glued":
                if pos:
                    put(".", pos.pop())
                    # make sure no blank follows
            s = "".join(L)
        self.ch.append(s)
        return t

    def table(self):
        out = []
        for s in self.ch:
            ws = [w for w in re.split(r"\W+", s.lower(), flags=re.A) if w]
            out.append({"n": len(s), "b": len(s.encode()), "c": s.count(","), "C": sum(s.count(c) for c in COMMAS),
                        "ds": ". " in s, "de": s.endswith("."), "ws": ws, "we": bool(re.match(r"\w", s[-1], re.A))})
        return out

    # -- rendering -----------------------------------------------------------
    def tok_html(self, t):
        return esc_text(self.ch[t - 1]) if t > 0 else WS[t]

    def render(self, n):
        if isinstance(n, Tx):
            return "".join(self.tok_html(t) for t in n.x)
        a = "".join(' %s="%s"' % (k, esc_attr(v)) for k, v in n.a)
        if n.g in VOID and not n.k:
            return "<%s%s/>" % (n.g, a)
        return "<%s%s>%s</%s>" % (n.g, a, "".join(self.render(k) for k in n.k) + self.raw(n), n.g)

    @staticmethod
    def raw(n):
        """Scripts and styles hold whatever they like; none of it is markup."""
        if n.g not in ("script", "style") or not n.k:
            return ""
        return RAWTAIL[n.k[0].x[0] % len(RAWTAIL)]

    def page(self, root, doctype=True):
        return ("<!DOCTYPE html>" if doctype else "") + self.render(root)

    # -- arena -----------------------------------------------------------------
    def arena(self, root):
        nodes = []

        def add(n, parent):
            i = len(nodes) + 1
            if isinstance(n, Tx):
                nodes.append({"g": "", "a": [], "k": [], "p": parent, "x": list(n.x)})
                return i
            rec = {"g": n.g, "a": [list(kv) for kv in n.a], "k": [], "p": parent, "x": []}
            nodes.append(rec)
            kids = []
            for k in n.k:
                if isinstance(k, Tx):
                    if not k.x:
                        continue
                    if kids and isinstance(kids[-1], Tx):
                        kids[-1] = Tx(*(kids[-1].x + k.x))
                        continue
                kids.append(k)
            rec["k"] = [add(k, i) for k in kids]
            return i
        add(root, 0)
        return nodes

    # -- observed text -> tokens ----------------------------------------------
    def tokens(self, s):
        """Tokens of an observed text; anything that is not one of the page's
        chunks in full, or a blank, yields the token -99."""
        out, i, n = [], 0, len(s)
        while i < n:
            c = s[i]
            if c == " ":
                out.append(0); i += 1
            elif c == "\n":
                out.append(-1); i += 1
            elif c == "\u00a0":
                out.append(-2); i += 1
            else:
                m = MARK.match(s, i)
                t = int(m.group(1)) if m else 0
                if m and 1 <= t <= len(self.ch) and s.startswith(self.ch[t - 1], i):
                    out.append(t); i += len(self.ch[t - 1])
                else:
                    out.append(-99)
                    j = i + 1
                    while j < n and not MARK.match(s, j) and not s[j].isspace():
                        j += 1
                    i = j
        return out


def obs_tree(doc, items):
    """Flattened observed tree with tokens, adjacent texts merged."""
    out = []
    for d, g, a, x in items:
        if g == "":
            t = doc.tokens(x)
            if not t:
                continue
            if out and out[-1][0] == d and out[-1][1] == "":
                out[-1][3].extend(t)
                continue
            out.append([d, "", [], t])
        else:
            out.append([d, g, a, []])
    return out
