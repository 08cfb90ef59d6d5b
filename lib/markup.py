"""C03: markup read, written and read back."""
import re

TAGS = ["div", "p", "b", "i", "span", "em", "ul", "li", "table", "a", "h2", "o:p", "svg:g", "x-y", "section"]
VOIDS = ["br", "hr", "img", "wbr", "input"]
RAW = ["title", "textarea", "style", "script"]
ANAMES = ["id", "class", "title", "data-x", "href", "alt"]
CODES = [38, 60, 62, 34, 39, 65, 97, 59, 35, 120, 32, 160, 233, 8364, 65533, 65535, 65536, 128512, 1114111, 9, 10]
WORDS = ["alpha", "beta", "gamma", "x", "lt", "amp", "gt", "quot", ";", "#", "#38;", "&", "x26;", "amp;", "lt;", "é", "日本", "\U0001f600", "'", '"', ">", "]]>", "/", "=", "-->",
         " ", "  ", "\n", "\t", "1", "0", " "]


def ref(r):
    c = r.choice(CODES)
    return r.choice(["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#%d;" % c, "&#x%x;" % c, "&#X%X;" % c, "&#0%d;" % c if c < 100000 else "&#%d;" % c])


def oddref(r):
    return r.choice(["&", "&&", "&;", "&#;", "&#x;", "&bogus;", "&amp", "&lt", "&#38", "&#x26", "&#12345678;", "&#x1234567;", "&AMP;", "&#xg;", "&# 38;", "&nbsp;",
                     "&eacute;", "& amp;", "&am p;"])


def text(r, odd=True, stray=True):
    """Markup of text: words, references, near-references, stray openers."""
    s = ""
    for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
        k = r.random()
        if k < 0.4:
            s += r.choice(WORDS)
        elif k < 0.75:
            s += ref(r)
        elif k < 0.9 and odd:
            s += oddref(r)
        elif stray:
            s += r.choice(["< ", "<3", "<=", "< b>", "<"]) + r.choice([" ", "9"])
        else:
            s += r.choice(["&amp;lt;", "&amp;amp;lt;", "&amp;#60;b&amp;#62;", "&#38;lt;", "&#x26;amp;", "&lt;b&gt;", "&lt;/p&gt;", "&lt;!--"])
    # a reference split over two texts is outside of the claim
    return s + (" " if re.search(r"&[#\w]*$", s) else "")


def value(r, q):
    """Raw markup of an attribute value within the given quotes (only well-formed references)."""
    s = ""
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.5:
            w = r.choice(WORDS)
        elif k < 0.85:
            w = ref(r)
        else:
            w = r.choice(["&amp;lt;", "&amp;quot;", "&#38;quot;", "<", "<b>", "</div>", "&lt;"])
        if q and q in w or not q and (set(w) & set("\"'<>=` \n\t/&") or w == " "):
            w = "w"
        s += w
    # an & that happens to continue as a reference the tokenizer knows is decoded by other rules: avoid them
    return s


def okvalue(s):
    for m in re.finditer("&", s):
        if not re.match(r"&(amp|lt|gt|quot|apos|#[0-9]{1,7}|#[xX][0-9a-fA-F]{1,6});", s[m.start():]):
            return False
    # codes the tokenizer replaces
    for m in re.finditer(r"&#(?:x([0-9a-fA-F]+)|([0-9]+));", s, re.I):
        n = int(m.group(1), 16) if m.group(1) else int(m.group(2))
        if 0x80 <= n <= 0x9f or n == 0 or n == 13 or n > 0x10ffff:
            return False
    return "\r" not in s


def case_of(r, s):
    return r.choice([s, s, s.upper(), s.capitalize()])


def tokens(r, n):
    toks, open_, src, names = [], [], "", []
    for _ in range(n):
        k = r.random()
        prev = toks[-1][0] if toks else ""
        if k < 0.3:
            t = case_of(r, r.choice(TAGS))
            at, s = attrs(r)
            empty = r.random() < 0.15
            toks.append(["empty" if empty else "start", t, at])
            src += "<" + t + s + ("/>" if empty else r.choice([">", ">", " >", "\n>"]))
            if not empty:
                open_.append(t.lower())
        elif k < 0.4:
            t = case_of(r, r.choice(VOIDS))
            at, s = attrs(r)
            toks.append(["empty", t, at])
            src += "<" + t + s + "/>"
        elif k < 0.62:
            if open_ and r.random() < 0.65:
                t = open_.pop()
            else:
                t = r.choice(TAGS + ["q", "g", "p"])
                if open_ and t == open_[-1]:
                    open_.pop()
            t = case_of(r, t)
            toks.append(["end", t])
            src += "</" + t + r.choice([">", ">", " >"])
        elif k < 0.86:
            if prev == "text":
                continue
            s = text(r)
            toks.append(["text", s])
            src += s
        elif k < 0.92:
            s = r.choice(["", " note ", "<b>x</b>", " a > b ", "x--y", "</div>", " <p", "&lt;"])
            toks.append(["comment", s])
            src += "<!--" + s + "-->"
        elif k < 0.95:
            s = "".join(r.choice(["a<b", "x", "&amp;", "<b>x</b>", "é&lt;", "1 > 2", "]", "]]", "]>", "[0]", "<![CDATA[", "-->", "</p>", "'", '"', " "]) for _ in range(r.choice([1, 1, 2, 4]))).replace("]]>", "]] >")
            toks.append(["cdata", s])
            src += "<![CDATA[" + s + "]]>"
        else:
            t = r.choice(RAW)
            s = r.choice(["x", "a", "é", ""]) + r.choice(["", "<b>y</b>", " < 5", "<3", "<", "&lt;i&gt;", "<!-- c -->", "&amp;amp;", "</b>", "</p >", " a<b;c", "<n;i++){}"])
            if s.startswith("<!") and t != "script":
                s = "x" + s
            if not s:
                s = "y"
            toks.append(["raw", t, s])
            src += "<" + t + ">" + s + "</" + t + ">"
    return toks, src


def attrs(r):
    at, s = [], ""
    for n in r.sample(ANAMES, r.choice([0, 0, 0, 1, 1, 2])):
        q = r.choice(['"', '"', "'", ""])
        for _ in range(20):
            v = value(r, q)
            if okvalue(v) and (q or v):
                break
        else:
            v, q = "v", '"'
        name = case_of(r, n)
        if not q and not v:
            q = '"'
        at.append([name, v])
        s += r.choice([" ", " ", "\n", "  "]) + name + r.choice(["=", "=", " = "]) + q + v + q
        if not q:
            s += " "
        if r.random() < .06:        # given twice, kept once
            s += " " + case_of(r, n) + '="' + v.replace('"', "&quot;") + '"'
    return at, s


PLAIN = ["<", ">", "&", '"', "'", "&amp;", "&lt;", "<b>", "</p>", "<!--", "-->", "]]>", "&#38;", "&amp;amp;", "x", "word", " ", "\n", "é", "\U0001f600", "a<b", "1 < 2", "&;", " "]


def plain(r):
    return "".join(r.choice(PLAIN) for _ in range(r.choice([1, 1, 2, 3, 5])))


def subtree(r, d):
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.45 or d == 0:
            if r.random() < 0.75:
                out.append({"tag": "", "text": plain(r)})
            else:
                out.append({"tag": "", "html": text(r, stray=False)})
        else:
            t = r.choice(TAGS + ["style", "title", "script"])
            if t in RAW:
                out.append({"tag": t, "attrs": [], "kids": [{"tag": "", "text": plain(r)}]})
                continue
            out.append({"tag": t, "attrs": [[n, plain(r)] for n in r.sample(ANAMES, r.choice([0, 0, 1, 2]))],
                        "kids": subtree(r, d - 1) if r.random() < 0.85 else []})
    return out


def flat(kids, d=1):
    out = []
    for k in kids:
        if k["tag"] == "":
            out.append([d, "", [], k["text"] if "html" not in k else {"html": k["html"]}])
        else:
            out.append([d, k["tag"].split(":")[-1], k["attrs"], ""])
            out += flat(k["kids"], d + 1)
    return out


CHARS = [[c, chr(c)] for c in CODES if c != 65533]


def run(ck):
    cases = []
    for i in range(ck.n(5000, 90000)):
        r = ck.rng("src", i)
        toks, src = tokens(r, r.choice([1, 2, 3, 4, 6, 8, 12, 16]))
        cases.append(({"kind": "src", "toks": toks}, {"src": src, "names": ANAMES}))
    for i in range(ck.n(4000, 70000)):
        r = ck.rng("tree", i)
        t = subtree(r, r.choice([0, 1, 2, 3]))
        f = flat(t)
        if any(isinstance(x[3], dict) for x in f):
            # text given as markup of text: read as tokens
            toks = []

            def emit(kids):
                for k in kids:
                    if k["tag"] == "":
                        toks.append(["text", k["html"]] if "html" in k else ["cdata", k["text"]])
                    else:
                        toks.append(["start", k["tag"], [[n, v.replace("&", "&amp;")] for n, v in k["attrs"]]])
                        emit(k["kids"])
                        toks.append(["end", k["tag"]])
            emit(t)
            cases.append(({"kind": "src", "toks": toks}, {"tree": t, "names": ANAMES}))
        else:
            cases.append(({"kind": "tree", "tree": f}, {"tree": t, "names": ANAMES}))
    obs = ck.observe("markup", [a for _, a in cases])
    specs, idx = [], []
    for i, ((s, a), o) in enumerate(zip(cases, obs)):
        if o["out"] != "ok":
            ck.violation("reading or writing markup: %s" % (o.get("msg") or o["out"]), "markup", a, o, None, s, "Markup")
            continue
        specs.append(dict(s, chars=CHARS, obs={k: o[k] for k in ("tree", "html", "back", "back2")}))
        idx.append(i)
    seen = 0
    for line in ck.judge("Markup", specs):
        w = line.split(" ", 2)
        if w[0] in ("GOOD", "BAD"):
            seen += 1
        if w[0] == "BAD":
            i = idx[int(w[1]) - 1]
            ck.violation("markup: " + w[2].split("]")[0].strip("["), "markup", cases[i][1], obs[i], w[2], cases[i][0], "Markup")
    if seen != len(specs):
        raise RuntimeError("%d of %d cases without a verdict" % (len(specs) - seen, len(specs)))
    ck.traces += seen
    ck.evals += 4 * seen
    ck.sample({"source": cases[3][1]["src"]})
    ck.sample({"tree": cases[-1][1]["tree"]})
