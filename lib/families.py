"""Pages that exercise one property each, around what Wild generates."""
import re
import gen
from gen import *
from docs import El, Tx, SP, NL, NB

FULL = ("outcome", "tree", "text")
PLAIN = dict(hide=0, nonhide=0, byline=0, dir=0, pres=0)


def wild(ck, n, key, conf=None, cmp=FULL, budget=None, opts=None, **kw):
    out = []
    for i in range(n):
        r = ck.rng(key, i)
        w = Wild(r, conf, budget)
        out.append(w.case(opts=opts(r) if callable(opts) else opts, cmp=cmp, **kw))
    return out


class Host(Wild):
    """A page with a solid article into which gadgets are put."""

    def para(self, n=None, **kw):
        n = n or self.r.choice([90, 120, 160, 220])
        return El("p", self.mark(), [Tx(self.doc.chunk(n, commas=kw.pop("commas", self.r.choice([1, 2, 4])), dot="end", **kw))])

    def nest(self, gadgets, depth=None):
        """The gadgets, inside of random wrappers."""
        r = self.r
        kids = list(gadgets)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if depth is None else depth):
            g = r.choice(["div", "div", "section", "p", "blockquote", "span", "b", "ul", "table", "figure", "article", "em", "td", "a"])
            a = self.attrs(g)
            if g == "ul":
                kids = [El("ul", a, [El("li", self.mark(), kids)])]
            elif g == "table":
                kids = [El("table", a, [El("tr", None, [El("td", self.mark(), kids)] + ([El("td", None, [self.text()])] if r.random() < .5 else []))])]
            elif g == "a":
                a["href"] = "http://other.example/x"
                kids = [El("a", a, kids)]
            else:
                kids = [El(g, a, kids)]
            if r.random() < .5:
                kids.insert(r.choice([0, len(kids)]), self.text() if r.random() < .6 else self.para(60))
        return kids

    def article(self, gadgets, paras=None, cls=None, around=True):
        """The body's children: a container with paragraphs and the gadgets among them."""
        r = self.r
        kids = [self.para() for _ in range(paras if paras is not None else r.choice([2, 3, 4]))]
        for g in gadgets:
            kids.insert(r.randint(0, len(kids)), g)
        a = self.mark()
        if cls or r.random() < .3:
            a["class"] = cls or r.choice(["content", "article", "foo", "entry"])
        for k in ("dir", "style"):
            if self.p("dir") and k == "dir":
                a[k] = "rtl"
        box = El(r.choice(["div", "div", "article", "section", "main"]), a, self.sep(kids))
        for _ in range(r.choice([0, 0, 1, 2])):
            box = El("div", self.mark(), [box])
        out = [box]
        if around and r.random() < .5:
            for _ in range(r.choice([1, 2])):
                out.insert(r.randint(0, len(out)), r.choice([
                    lambda: self.para(r.choice([30, 79, 80, 81, 100])),
                    lambda: El("div", dict(self.mark(), **{"class": r.choice(["sidebar", "foo", "comment"])}), [self.para(60), self.para(40)]),
                    lambda: El("ul", self.mark(), [El("li", None, [El("a", {"href": "foo.html"}, [self.text()])]) for _ in range(3)]),
                ])())
        return out


def hosted(ck, n, key, make, conf=None, cmp=FULL, thr=(1, 100, 300, 500, 500, 2000), opts=None, **kw):
    """make(host, rng) yields gadgets (lists of nodes); the page is built around them."""
    out = []
    conf = conf or cfg(**PLAIN)
    for i in range(n):
        r = ck.rng(key, i)
        h = Host(r, conf, 500)
        gs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            gs += h.nest(make(h, r))
        kids = h.article(gs)
        o = {"thr": r.choice(thr)}
        o.update(opts(r) if callable(opts) else (opts or {}))
        kk = dict(kw)
        if callable(kk.get("extra")):
            kk.update(kk.pop("extra")(h, r))
        out.append(h.case(opts=o, kids=kids, cmp=cmp, **kk))
    return out


# -- C04 ------------------------------------------------------------------------------
FORBIDDEN = ["script", "noscript", "style", "link", "input", "textarea", "select", "button", "footer", "aside", "h1"]
PRES = ["align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace", "rules", "style", "valign", "vspace",
        "width", "height"]
NEARPRES = ["title", "lang", "alt", "data-style", "aligns", "size", "color", "face", "styles", "id", "name", "abbr", "headers", "scope"]


def junk(h, r, g=None):
    g = g or r.choice(FORBIDDEN)
    a = h.mark()
    if r.random() < .3:
        a[r.choice(PRES)] = "x"
    if g in ("link", "input"):
        return El(g, a)
    shapes = [lambda: [], lambda: [h.text()], lambda: [El("b", None, [h.text()])], lambda: [h.para(r.choice([30, 90]))],
              lambda: [El("div", h.mark(), [h.para(120), h.para(60)])], lambda: [junk(h, r)], lambda: [h.img()],
              lambda: [El("a", {"href": "foo.html"}, [h.text()])]]
    if g in ("script", "style", "textarea"):
        shapes = shapes[:2]
    return El(g, a, r.choice(shapes)())


def styled(h, r):
    g = r.choice(["table", "td", "hr", "pre", "div", "p", "span", "img", "b", "ul", "li", "th", "svg", "font", "blockquote", "figure", "video", "iframe"])
    a = h.mark()
    for k in r.sample(PRES, r.choice([1, 2, 4, 8, 14])):
        a[k] = r.choice(["1", "x", "", "color:red"])
    for k in r.sample(NEARPRES, r.choice([0, 1, 3])):
        a[k] = "x"
    items = list(a.items())
    r.shuffle(items)
    if g == "td" or g == "th":
        return El("table", {"summary": "s"}, [El("tr", {"style": "x", "width": "1"}, [El(g, items, [h.text()]), El("td", {"height": "3"}, [h.text()])])])
    if g == "table":
        return El("table", dict(items), [El("tr", None, [El("td", None, [h.text()]), El("td", None, [h.text()])])])
    if g == "hr" or g == "img":
        return El(g, items if g == "hr" else items + [("src", "a.jpg")])
    if g == "svg":
        return El("svg", items, [El("g", {"style": "y", "data-n": "s%d" % h.n}, [El("path", {"style": "z", "width": "2"})])])
    if g == "video":
        return El("video", items + [("src", "//www.youtube.com/v.mp4")], [El("source", {"src": "n.mp4", "style": "x"})])
    if g == "iframe":
        return El("iframe", items + [("src", "//www.youtube.com/embed/x")], [])
    if g in ("ul", "li"):
        return El("ul", items, [El("li", {"style": "q", "type": "disc"}, [h.text(), h.text()])])
    return El(g, items, [h.text()])


def clean(ck, n):
    return (hosted(ck, n, "junk", lambda h, r: [junk(h, r) for _ in range(r.choice([1, 2]))], cmp=FULL + ("clean",)) +
            hosted(ck, n, "styled", lambda h, r: [styled(h, r)], cmp=FULL + ("clean",)) +
            wild(ck, n, "wild", cfg(pres=.5, block=dict(BASE["block"], junk=30, h=15)), cmp=("clean",)))


# -- C05 ------------------------------------------------------------------------------
JS = ["javascript:void(0)", "javascript:", "JavaScript:x()", "JAVASCRIPT:y", " javascript:z", "\njavascript:q", "javascript:a%20b", "\tjavascript:w;",
      "  JavaScript:alert('x')", "javascript://http://x"]
NOJS = ["javascripts:x", "xjavascript:y", "#javascript:z", "http://javascript:80/", "java-script:v", "foo?javascript:w", "vbscript:q",
        "/javascript:a", "javascript", "data:javascript:", "mailto:javascript"]


def jslink(h, r):
    shapes = [lambda: [h.text()], lambda: [], lambda: [h.img()], lambda: [h.text(), h.img()], lambda: [h.img(), h.text()],
              lambda: [h.text(), El("em", h.mark(), [h.text()]), h.text()], lambda: [El("b", h.mark(), [h.text()])],
              lambda: [El("br"), h.text()], lambda: [El("span", h.mark(), [h.text(), El("b", None, [h.text()])]), Tx(SP), h.text()],
              lambda: [Tx(SP)], lambda: [jslink(h, r), h.text()], lambda: [El("p", h.mark(), [h.text()]), El("p", h.mark(), [h.text()])],
              lambda: [El("div", h.mark(), [h.para(40), h.img()])], lambda: [h.text(), El("a", {"href": "foo.html"}, [h.text()]), h.text()]]
    a = h.mark()
    a["href"] = r.choice(JS if r.random() < .75 else NOJS)
    if r.random() < .3:
        a["class"] = "foo"
    k = El("a", a, r.choice(shapes)())
    where = r.random()
    if where < .5:
        kids = [k]
        if r.random() < .6:
            kids.insert(0, h.text())
        if r.random() < .6:
            kids.append(h.text())
        if r.random() < .3:
            kids.append(jslink(h, r))
        return El("p", h.mark(), [Tx(h.doc.chunk(120, commas=2, dot="end"))] + kids)
    return k


def js(ck, n):
    c = cfg(imgvals=["a.jpg", "b.png", "img/c.webp"], blank=.2, **PLAIN)
    return (hosted(ck, 2 * n, "js", lambda h, r: [jslink(h, r)], conf=c, cmp=FULL + ("nojs", "selected")) +
            wild(ck, n, "wild", cfg(inline=dict(BASE["inline"], link=40), hrefs=JS + NOJS), cmp=("nojs",)))


# -- C06 ------------------------------------------------------------------------------
SEGS = ["a", "b.html", "..", ".", "", "%41b", "c%2Fd", "x;y=1", "e~f", "g,h", "...", "i=j", "k@l", "m:n", "%7Eq", "o'p", "r!s", "(t)"]
QUERIES = ["", "a=b", "a=b&c=%20d", "/x/../y", "q?r", "x=http://z/", "%zz"]
FRAGS = ["", "sec", "a%20b", "x/y?z", "%C3%A9"]


def authority(r):
    return r.choice(["", "", "user@", "user:pw@", "u%40x@"]) + r.choice(["Other.example", "other.example", "HOST.example", "host.example", "127.0.0.1"]) + \
        r.choice(["", "", "", ":8080", ":80"])


def path(r, absolute=None):
    n = r.choice([0, 1, 1, 2, 3, 4])
    segs = [r.choice(SEGS) for _ in range(n)]
    if ".." in segs:            # net/url folds an empty segment behind the root into it
        segs = [s or "z" for s in segs]
    p = "/".join(segs)
    if absolute or (absolute is None and r.random() < .35):
        p = "/" + p
    return p


def ref(r):
    k = r.random()
    tail = (("?" + r.choice(QUERIES)) if r.random() < .3 else "") + (("#" + r.choice(FRAGS)) if r.random() < .3 else "")
    if k < .08:
        return r.choice(["mailto:a@b.c", "tel:+1-2", "data:text/plain,x%20y", "urn:isbn:123", "about:blank", "ftp:x", "MAILTO:A@B.c"])
    if k < .30:
        return r.choice(["http", "https", "HTTP", "ftp"]) + "://" + authority(r) + (path(r, True) if r.random() < .8 else "") + tail
    if k < .42:
        return "//" + authority(r) + (path(r, True) if r.random() < .8 else "") + tail
    if k < .50:
        return "#" + r.choice(FRAGS + ["top", "a", "b"])
    if k < .56:
        return "?" + r.choice(QUERIES)
    p = path(r)
    if p.startswith("//") or (":" in p.split("/")[0]):
        p = "./" + p.lstrip("/")
    s = p + tail
    if r.random() < .08:
        s = r.choice([" ", "\n"]) + s + r.choice(["", " "])
    return s


def absuri(r):
    return r.choice(["http", "https"]) + "://" + authority(r) + (path(r, True) if r.random() < .85 else "") + \
        (("?" + r.choice(QUERIES[1:4])) if r.random() < .25 else "") + (("#" + r.choice(FRAGS)) if r.random() < .15 else "")


def srcset(r):
    n = r.choice([1, 1, 2, 3])
    items = []
    for _ in range(n):
        s = r.choice(["a.jpg", "../b.png", "/c/d.webp", "http://Cdn.example/e.jpg", "//cdn.example/q", "img?x=1,2", "f,g.jpg", "#h", "i%20j.png"])
        items.append(s + r.choice(["", " 2x", " 100w", " 1.5x", "  3x"]))
    return r.choice([", ", ",", " , ", ",\n"]).join(items)


def linked(h, r):
    k = r.choice(["a", "a", "a", "img", "img", "video", "picture", "figure", "audio", "srcset", "multi", "embed"])
    a = h.mark()
    if k == "a":
        a["href"] = ref(r)
        return El("p", h.mark(), [h.text(), El("a", a, [h.text()])])
    if k == "multi":
        a["href"] = ",%20".join(ref(r).strip() for _ in range(r.choice([2, 3])))
        return El("p", h.mark(), [El("a", a, [h.text()])])
    if k == "img":
        a["src"] = ref(r)
        if r.random() < .5:
            a["srcset"] = srcset(r)
        return El("img", a)
    if k == "srcset":
        a["srcset"] = srcset(r)
        return El("img", a)
    if k in ("video", "audio"):
        a["src"] = ref(r)
        a["poster"] = ref(r)
        a["title"] = "//www.youtube.com"
        return El(k, a, [El("source", {"src": ref(r), "data-n": "v%d" % h.n}), El("source", {"srcset": srcset(r), "data-n": "w%d" % h.n})])
    if k == "picture":
        return El("picture", a, [El("source", {"srcset": srcset(r), "data-n": "s%d" % h.n, "href": "rel"}), El("img", {"src": ref(r), "data-n": "i%d" % h.n})])
    if k == "embed":
        a["src"] = "//www.youtube.com/embed/" + r.choice(["x", "y"])
        return El("iframe", a, [])
    a["src"] = ref(r)
    return El("figure", a, [El("img", {"src": "z.jpg", "data-n": "i%d" % h.n}), El("figcaption", None, [h.text()])])


def uris(ck, n):
    c = cfg(imgvals=["a.jpg"], **PLAIN)
    out = []
    for i in range(3 * n):
        r = ck.rng("uri", i)
        h = Host(r, c, 400)
        gs = []
        for _ in range(r.choice([2, 3, 5])):
            gs.append(linked(h, r))
        kids = h.article(gs, around=False)
        uri, base, head = absuri(r), "", []
        if r.random() < .4:
            base = absuri(r) if r.random() < .5 else ref(r).strip()
            if base.split("#")[0].endswith("?") or (":" in base and "://" not in base):
                base = "x/y"
            head = [El("base", {"href": base})]
            if r.random() < .2:
                head.append(El("base", {"href": "http://second.example/x/"}))
            if r.random() < .2:
                head.insert(0, El("base", {"target": "_blank"}))
                base = ""
        root = page(h.doc, kids, head=head)
        out.append(finish(h.doc, root, {"thr": r.choice([1, 500, 2000])}, uri=uri, base=base, cmp=("outcome", "uris")))
    return out


# -- C07 ------------------------------------------------------------------------------
CLS = ["foo", "keepme", "c1", "page", "Page", "keep", "keepme2", "bar", "c1-x", "xkeepme", "readability-styled", "baz"]


def classy(h, r):
    def cl():
        q = [r.choice(CLS) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        s = ""
        for j, w in enumerate(q):
            s += (r.choice([" ", " ", "  ", "\t", "\n", " \n "]) if j else r.choice(["", "", " "])) + w
        return s + r.choice(["", "", "", " "])

    def deco(e):
        if isinstance(e, El):
            e.a = [(k, v) for k, v in e.a if k != "class"]
            if r.random() < .7:
                e.a.insert(r.randint(0, len(e.a)), ("class", cl()))
            if r.random() < .2 and not any(k == "id" for k, _ in e.a):
                e.a.append(("id", r.choice(["foo", "bar", "keepme x"])))
            for k in e.k:
                deco(k)
        return e
    e = r.choice([lambda: El("div", h.mark(), [h.para(80), h.para(60)]), lambda: h.para(150), lambda: h.table(1), lambda: El("ul", h.mark(), [El("li", None, [h.text()])]),
                  lambda: El("p", h.mark(), [h.text(), El("b", None, [h.text()]), El("a", {"href": "foo.html"}, [h.text()])]),
                  lambda: El("figure", h.mark(), [h.img()]), lambda: El("svg", h.mark(), [El("path", {"d": "x"})]), lambda: El("blockquote", h.mark(), [h.para(80)])])()
    return deco(e)


def classes(ck, n):
    def opts(r):
        o = {}
        if r.random() < .3:
            o["keep"] = r.random() < .7
        if r.random() < .6:
            o["pres"] = r.sample(["keepme", "foo", "c1", "page", "bar", "c1-x", "Page"], r.choice([1, 2, 3]))
        return o
    c = cfg(preserve=0, keep=0, pools=[CLS, NEUTRAL], names=.6, **PLAIN)
    return (hosted(ck, 2 * n, "cls", lambda h, r: [classy(h, r)], conf=c, cmp=FULL + ("classes",), opts=opts) +
            wild(ck, n, "wild", cfg(preserve=.5, names=.7), cmp=("classes",)))


# -- C08 ------------------------------------------------------------------------------
def selected(ck, n):
    return (wild(ck, 2 * n, "wild", cmp=FULL + ("selected",)) +
            wild(ck, n, "retry", cfg(thr=[100, 200, 400, 800, 3000], names=.7, hide=.03), cmp=FULL + ("selected",)) +
            wild(ck, n, "amp", cfg(amp=[1, 3], multi=[3, 6], junk=["form", "fieldset", "h1", "header"]), cmp=("outcome", "text", "selected")))


# -- C09 ------------------------------------------------------------------------------
SCORELEN = [24, 25, 26, 40, 79, 80, 81, 98, 99, 100, 101, 120, 198, 199, 200, 201, 240, 299, 300, 301, 350]


def scored(ck, n):
    quiet = dict(hide=0, nonhide=0, byline=0, dir=0, pres=0, vid=0, keep=0, preserve=0)
    flat = dict(p=50, div=40, h=4, list=3, table=0, figure=0, pre=4, misc=4, junk=0, inline=8)
    a = cfg(lengths=SCORELEN, commas=[0, 0, 1, 2, 3, 6], names=.5, pools=[POSITIVE, NEGATIVE, NEUTRAL, MAYBE], tops=[2, 3, 4, 5], kids=[1, 2, 2, 3, 4],
            block=flat, inline=dict(text=60, fmt=8, link=20, br=3, img=2, delins=2), ntop=.4, thr=[1, 1, 30, 60], blank=.1, brrun=.03, multi=[0], amp=[0],
            budget=1600, **quiet)
    b = dict(a, divs=["div", "section", "article", "main", "blockquote", "td", "ul", "form", "address", "dl", "ol", "li", "th", "pre", "h3", "span", "header"], depth=4)
    d = dict(a, commas=[0], lengths=[26, 30, 79, 80, 81, 90], dots=["", "end", "mid", "glued"], names=.25)
    e = dict(a, names=1, ids=.6)     # every name in turn
    out = wild(ck, n, "a", a) + wild(ck, n, "b", b) + wild(ck, n, "d", d) + wild(ck, n // 2, "e", e)
    out += hosted_siblings(ck, n)
    out += contest(ck, n)
    out += tiers(ck, n)
    out += tagged(ck, n)
    out += edges(ck, n)
    return out


def hosted_siblings(ck, n):
    """A strong container with siblings around the limits of what joins it."""
    out = []
    c = cfg(blank=.1, brrun=0, inline=dict(BASE["inline"], link=25, br=3, img=3), **PLAIN)
    for i in range(n):
        r = ck.rng("sib", i)
        h = Host(r, c, 900)
        cls = r.choice(["", "foo", "content", "c1"])
        a = h.mark()
        if cls:
            a["class"] = cls
        elif r.random() < .5:
            a["class"] = ""
        main = El("div", a, [h.para(r.choice([100, 200, 300])) for _ in range(r.choice([2, 3, 5]))])
        sibs = []
        for _ in range(r.choice([1, 2, 3, 4])):
            k = r.choice(["p", "p", "p", "div", "div", "h2", "ul", "span", "other", "section", "text"])
            b = h.mark()
            if r.random() < .4:
                b["class"] = cls or r.choice(["foo", "c1", "sidebar", "", ""])
                if r.random() < .2:
                    b["class"] = r.choice([" " + cls, cls + " ", cls.upper(), cls + " x", cls + cls])
            if k == "p":
                m = r.choice([5, 20, 78, 79, 80, 80, 80, 81, 82, 120])
                kids = [Tx(h.doc.chunk(m, dot=r.choice(["", "end", "mid", "glued"]), commas=r.choice([0, 1]), wide=r.choice([0, 0, 1])))]
                ln = r.choice([0, 0, 0, 5, 10, 19, 20, 21, 30])
                if ln:
                    kids.append(El("a", {"href": r.choice(["foo.html", "#x", "#"])}, [Tx(h.doc.chunk(ln))]))
                sibs.append(El("p", b, kids))
            elif k == "div":
                sibs.append(El("div", b, [h.para(r.choice([26, 60, 100, 150]), commas=r.choice([0, 1, 3])) for _ in range(r.choice([1, 1, 2, 3]))]))
            elif k == "h2":
                sibs.append(El("h2", b, [Tx(h.doc.chunk(r.choice([10, 30, 90])))]))
            elif k == "ul":
                sibs.append(El("ul", b, [El("li", None, [Tx(h.doc.chunk(20))]) for _ in range(2)]))
            elif k == "span":
                sibs.append(El("span", b, [Tx(h.doc.chunk(r.choice([20, 90]), dot="end"))]))
            elif k == "text":
                sibs.append(Tx(h.doc.chunk(r.choice([20, 90]), dot="end")))
            elif k == "section":
                sibs.append(El("section", b, [Tx(h.doc.chunk(r.choice([30, 120]), commas=3))]))
            else:
                sibs.append(El(r.choice(["blockquote", "pre", "article", "center"]), b, [h.para(r.choice([40, 120]))]))
        sibs.insert(r.randint(0, len(sibs)), main)
        kids = [El(r.choice(["div", "div", "section", "article"]), h.mark(), h.sep(sibs))] if r.random() < .7 else sibs
        if r.random() < .4:
            kids.append(El("div", h.mark(), [h.para(60)]))
        out.append(h.case(opts={"thr": r.choice([1, 1, 100]), **({"ntop": r.choice([1, 2, 5])} if r.random() < .3 else {})}, kids=kids, cmp=FULL))
    return out


def tiers(ck, n):
    """Containers whose scores stand in exact proportions: three quarters, a third, a fifth."""
    out = []
    c = cfg(blank=0, brrun=0, **PLAIN)
    for i in range(n):
        r = ck.rng("tiers", i)
        h = Host(r, c, 3000)

        def box(score, g="div"):
            """A block of two paragraphs with the given score (at least 9 for a div)."""
            pts = score - (5 if g == "div" else 3 if g == "blockquote" else 0) - 4
            x = r.randint(0, max(pts, 0))
            kids = [El("p", h.mark(), [Tx(h.doc.chunk(r.choice([60, 90, 99]), commas=q))]) for q in (x, max(pts, 0) - x)]
            return El(g, h.mark(), kids)
        top = r.choice([12, 16, 20, 24, 30, 36, 40])
        around = lambda q: q + r.choice([0, 0, 0, 0, -1, 1])
        mode = r.choice(["quarter", "quarter", "rising", "third", "fifth", "exact"])
        ntop = r.choice([5, 5, 5, 4, 6, 8, 1, 2, 3])
        if mode in ("quarter", "rising"):
            if mode == "quarter":
                rest = [around(3 * top // 4) for _ in range(r.choice([2, 3, 3, 4, 5]))]
                boxes = [box(max(s, 9)) for s in [top] + rest]
                r.shuffle(boxes)
            else:                   # the later, the better: the list of the best overflows each time
                k = r.choice([3, 4, 5, 6, 7])
                ntop = r.choice([k - 1, k, k - 2, k + 1, 3, 2, 5])
                top = max(top, 20)
                boxes = [box(top - r.choice([j, min(2 * j, top // 4), min(2 * j, top // 4)])) for j in range(k - 1, -1, -1)]
            w = [El("div", h.mark(), [b]) if r.random() < .9 else b for b in boxes]
            cut = r.choice([0, 0, 1, 2])
            kids = [El("div", h.mark(), w[cut:])] + w[:cut]
            if r.random() < .5:
                kids = [El(r.choice(["div", "section"]), h.mark(), kids)] + ([h.para(60)] if r.random() < .5 else [])
        elif mode == "exact":       # a parent with exactly a third, below one with a little more
            g, top = r.choice([("address", 33), ("form", 33), ("dl", 33), ("h3", 45), ("h4", 45)])
            p = El(g, h.mark(), [box(around(top))])
            kids = [El("div", h.mark(), [p] + [El("p", h.mark(), [Tx(h.doc.chunk(70, commas=r.choice([2, 6, 9, 12])))]) for _ in range(r.choice([1, 2]))]), h.para(40)]
        elif mode == "third":
            main = box(top)
            inner = El(r.choice(["div", "section", "span", "center"]), h.mark(), [main] + [box(9) for _ in range(r.choice([0, 0, 1]))])
            mid = El(r.choice(["div", "section", "article"]), h.mark(), [inner] + [box(r.choice([9, 10, 12])) for _ in range(r.choice([0, 1]))])
            kids = [El("div", h.mark(), [mid] + [box(around(top // 2), r.choice(["div", "section", "blockquote"])) for _ in range(r.choice([0, 1, 2]))]), h.para(50)]
        else:
            top = r.choice([45, 50, 55, 60, 65, 70])
            cls = r.choice(["", "c1"])
            main = box(top)
            if cls or r.random() < .5:
                main.a.append(("class", cls))
            sibs = [main]
            for _ in range(r.choice([1, 2, 3])):
                q = max(10, top // 5)
                b = box(around(q - (top // 5 if r.random() < .5 else 0)), r.choice(["div", "div", "section", "blockquote", "center"]))
                if r.random() < .6:
                    b.a.append(("class", r.choice([cls, cls, "c2", " " + cls, cls.upper()])))
                sibs.insert(r.randint(0, len(sibs)), b)
            kids = [El(r.choice(["div", "section"]), h.mark(), sibs)] if r.random() < .3 else sibs
        out.append(h.case(opts={"thr": 1, "ntop": max(ntop, 1)}, kids=kids, cmp=FULL))
    return out


TAGSCORE = dict(div=5, pre=3, td=3, blockquote=3, address=-3, ol=-3, ul=-3, dl=-3, dd=-3, dt=-3, li=-3, form=-3, h1=-5, h2=-5, h3=-5, h4=-5, h5=-5, h6=-5, th=-5)


def tagged(ck, n):
    """Two containers of different tags whose paragraphs make up for what the tags are worth, or nearly."""
    out = []
    c = cfg(blank=0, brrun=0, **PLAIN)
    tags = sorted(TAGSCORE) + ["section", "article", "main", "center", "span", "nav", "tr", "tbody", "dir", "figure", "details", "x-y"]
    for i in range(n):
        r = ck.rng("tagged", i)
        h = Host(r, c, 3000)

        def box(g, score, name=""):
            w = 0 if not name else 25 if name in ("content", "entry", "post-1", "story") else -25
            pts = max(0, score - TAGSCORE.get(g, 0) - w - 2)
            a = h.mark()
            if name:
                a[r.choice(["class", "id"])] = name
            return El(g, a, [El("p", h.mark(), [Tx(h.doc.chunk(r.choice([50, 80, 99]), commas=pts))])])
        g = sorted(TAGSCORE)[i // 2 % len(TAGSCORE)] if i % 2 else r.choice(tags)
        g2 = r.choice([r.choice(tags), "div", "div", "section", g])
        top = r.choice([31, 34, 38])
        d = r.choice([0, 0, 0, 1, -1, 1, -1, 2, -2, 3, -4, 4, -5, 5])
        nm = [r.choice(["", "", "", "content", "entry", "post-1", "story", "foot", "promo", "tags", "widget", "masthead"]) for _ in range(2)]
        bs = [box(g, top + d, nm[0]), box(g2, top, nm[1])]
        if r.random() < .2:
            bs.append(box(r.choice(tags), top + r.choice([0, 1, -1, -4])))
        # of equals the first counts: a point more puts the second before it, a point less the first behind it
        if r.random() < .4 or (d > 0) == (r.random() < .2):
            bs.reverse()
        kids = [El(r.choice(["div", "section", "center"]), h.mark(), [b]) if r.random() < .8 else b for b in bs]
        if r.random() < .4:
            kids = [El("div", h.mark(), kids)]
        out.append(h.case(opts={"thr": 1, "ntop": r.choice([1, 2, 5, 5])}, kids=kids, cmp=FULL))
    return out


def edges(ck, n):
    """Two equal containers but for a paragraph at a limit of what it scores; and siblings that need their bonus."""
    out = []
    c = cfg(blank=0, brrun=0, **PLAIN)
    for i in range(n):
        r = ck.rng("edges", i)
        h = Host(r, c, 3000)
        P = lambda n, commas: El(r.choice(["p", "p", "pre"]), h.mark(), [Tx(h.doc.chunk(n, commas=commas))])
        if i % 3 == 1:
            def worth(n, commas):
                return 0 if n < 25 else 2 + commas + min(n // 100, 3)
            n1, c1 = r.choice([24, 24, 25, 25, 26, 99, 100, 101, 199, 200, 299, 300, 399, 400, 401]), r.choice([0, 0, 1, 3])
            top = r.choice([20, 24, 30])
            a = El("div", h.mark(), [P(80, top - 7), P(n1, c1)])
            b = El("div", h.mark(), [P(80, top - 7 + worth(n1, c1) + r.choice([0, 0, 0, 1, -1]))])
            r.shuffle(a.k)
            kids = [a, b]
            if r.random() < .4:
                kids.reverse()
            kids = [El(r.choice(["section", "div"]), h.mark(), [k]) for k in kids]
        else:
            cls = r.choice(["c1", "c1", "foo bar", "c1", ""])
            top = r.choice([30, 35, 35, 40, 40, 40, 45, 45, 49, 50, 51, 55])
            main = El("div", dict(h.mark(), **({"class": cls} if cls else {})), [P(80, top - 7)])
            sibs = [main]
            need = max(10, top // 5) - top // 5
            for _ in range(r.choice([1, 2, 3])):
                g = r.choice(sorted(TAGSCORE)) if r.random() < .6 else r.choice(["section", "article", "center", "span", "nav"])
                a = h.mark()
                if r.random() < .5:
                    a["class"] = r.choice([cls, cls, cls, cls + " ", cls.upper(), "c2"])
                want = (need if cls and a.get("class") == cls else max(10, top // 5)) + r.choice([0, 0, 0, 1, -1, -1])
                pts = want - TAGSCORE.get(g, 0) - 2
                kk = [P(r.choice([30, 60]), pts)] if pts >= 0 else [P(20, 0)]
                sibs.insert(r.randint(0, len(sibs)), El(g, a, kk))
            kids = [El("div", h.mark(), sibs)] if r.random() < .3 else sibs
        out.append(h.case(opts={"thr": 1, "ntop": r.choice([1, 5, 5])}, kids=kids, cmp=FULL))
    return out


def contest(ck, n):
    """Several near-equal containers at different depths."""
    out = []
    c = cfg(blank=0, brrun=0, **PLAIN)
    for i in range(n):
        r = ck.rng("contest", i)
        h = Host(r, c, 2500)
        base, com = r.choice([60, 110, 210]), r.choice([0, 1, 2, 4])

        def box(d):
            a = h.mark()
            if r.random() < .25:
                a[r.choice(["class", "id"])] = r.choice(["content", "sidebar", "foo", "entry", "widget"])
            kids = [h.para(max(26, base + r.choice([0, 0, 0, -40, 90])), commas=max(0, com + r.choice([0, 0, 1, -1, 3]))) for _ in range(r.choice([1, 1, 2, 3]))]
            if d > 0:
                for _ in range(r.choice([1, 2, 3, 4])):
                    kids.insert(r.randint(0, len(kids)), box(d - 1 if r.random() < .8 else 0))
                if r.random() < .5:
                    kids = [k for k in kids if k.g != "p"]
            b = El(r.choice(["div", "div", "div", "article", "section", "blockquote", "ul"]), a, kids)
            if r.random() < .25:
                b = El("div", h.mark(), [b])
            return b
        kids = [box(r.choice([0, 1, 2, 2])) for _ in range(r.choice([1, 2, 3, 4]))]
        if r.random() < .3:
            kids = [El("div", h.mark(), kids)]
        out.append(h.case(opts={"thr": 1, "ntop": r.choice([1, 2, 3, 4, 5, 5, 5, 8])}, kids=kids, cmp=FULL))
    return out


# -- C10 ------------------------------------------------------------------------------
def retry_docs(ck, n):
    """Documents on which the attempts find texts of different lengths."""
    c = cfg(names=.6, hide=0, nonhide=0, byline=.02, dir=0, pres=0, pools=[UNLIKELY, NEGATIVE, UNLIKELY, MAYBE, POSITIVE, NEUTRAL],
            block=dict(BASE["block"], list=14, junk=8), vid=0, keep=0, preserve=0, multi=[0, 3, 9], commas=[0, 0, 1, 2])
    out = []
    for i in range(n):
        r = ck.rng("retry", i)
        if r.random() < .5:
            out.append(Wild(r, c, r.choice([200, 500, 900])))
            out[-1].kids = out[-1].blocks(0, r.choice(c["tops"]))
        else:
            h = Host(r, cfg(blank=.1, **PLAIN), 600)
            kids = []
            for _ in range(r.choice([1, 2, 3, 4])):
                nm = r.choice([UNLIKELY, UNLIKELY, MAYBE, NEGATIVE, NEUTRAL, POSITIVE])
                word = r.choice(nm)
                if r.random() < .15:
                    word = r.choice([word[:-1], word[1:], word.upper(), "x" + word + "y", word.replace("-", "_")])
                a = h.mark()
                a[r.choice(["class", "id"])] = word
                if r.random() < .15:
                    a["class"] = a.get("class", "") + " " + r.choice(MAYBE)
                inner = [h.para(r.choice([30, 60, 120]), multi=r.choice([0, 10])) for _ in range(r.choice([1, 2]))]
                k = El(r.choice(["div", "div", "section", "p", "ul", "a", "span", "table", "td", "aside", "form"]), a, inner)
                if k.g == "p" or k.g == "span":
                    k.k = [h.text()]
                if r.random() < .2:
                    k = El(r.choice(["table", "code", "div", "td"]), h.mark(), [k])
                    for _ in range(r.choice([0, 1, 2, 3])):
                        k.k = [El("div", h.mark(), k.k)]
                kids.append(k)
            if r.random() < .4:         # blocks without text, which only some attempts keep
                box = El("div", h.mark(), [h.para(120), h.para(90)])
                for _ in range(r.choice([1, 2])):
                    box.k.insert(r.randint(0, 2), r.choice([
                        lambda: El("div", h.mark(), [El("img", {"src": "a.jpg"}), El("img", {"src": "b.jpg"})]),
                        lambda: El("ul", dict(h.mark(), **{"class": r.choice(["widget", "promo", "foo"])}), [El("li", None, [El("img", {"src": "a.jpg"})])]),
                        lambda: El("table", h.mark(), [El("tr", None, [El("td", None, [El("img", {"src": "a.jpg"})]), El("td", None, [El("img", {"src": "b.jpg"})])])]),
                        lambda: El("div", dict(h.mark(), **{"class": r.choice(["sidebar", "related"])}), [El("img", {"src": "c.jpg"}), El("hr")])])())
                for w in r.sample([NEGATIVE, UNLIKELY, NEGATIVE], r.choice([0, 1, 1, 2])):
                    box.k.insert(r.randint(0, 2), El(r.choice(["div", "div", "ul", "section"]), dict(h.mark(), **{"class": r.choice(w)}), [h.para(r.choice([60, 120]))]))
                kids.append(box)
            h.kids = kids
            out.append(h)
    return out


# -- C11 ------------------------------------------------------------------------------
HIDE2 = HIDERS + [("style", "visibility:hidden;color:red"), ("style", "display :none"), ("style", "\ndisplay:\nnone\n"), ("style", "a:b;c:d;display:none;"),
                  ("style", "visibility: hidden"), ("hidden", "until-found"), ("hidden", "false")]
SHOW2 = NONHIDERS + [("style", "visibility:collapse"), ("style", "DISPLAY:BLOCK"), ("class", "hidden"), ("id", "hidden"), ("aria-hidden", "TRUE"),
                     ("aria-hidden", "1"), ("data-hidden", ""), ("role", "dialogs"), ("role", "Navigation"), ("role", "note"), ("role", ""),
                     ("type", "hidden"), ("style", "display:inline-block"), ("style", "overflow:hidden"), ("style", "opacity:0"), ("style", "")]


def hidden_el(h, r):
    g = r.choice(["div", "p", "span", "section", "ul", "li", "b", "a", "h2", "table", "td", "article", "blockquote", "figure", "header", "em", "pre"])
    if r.random() < .3:
        g = r.choice(["ol", "dl", "dd", "dt", "main", "nav", "center", "address", "h1", "h3", "h4", "h5", "h6", "code", "label", "small", "strong", "i", "font",
                      "form", "fieldset", "details", "summary", "figcaption", "caption", "tr", "th", "tbody", "svg", "math", "img", "br", "hr", "x-tag", "del", "ins"])
    a = h.mark()
    if r.random() < .7:
        k, v = r.choice(HIDE2)
        a[k] = v
        if k == "aria-hidden" and r.random() < .5:
            a["class"] = r.choice(["fallback-image", "x fallback-image y", "fallback", "image"])
        if v == "dialog" and r.random() < .5:
            a["aria-modal"] = r.choice(["true", "false", ""])
        if r.random() < .12:
            a = dict(h.mark(), **{"role": r.choice(["dialog", "dialog", "dialog", "Dialog", "document"]), "aria-modal": r.choice(["true", "true", "true", "false", "TRUE"])})
        if r.random() < .2:
            k, v = r.choice(HIDE2 + SHOW2)
            a.setdefault(k, v)
        if r.random() < .1:
            a["class"] = "fallback-image"
    else:
        k, v = r.choice(SHOW2)
        a[k] = v
        if r.random() < .2:
            k, v = r.choice(SHOW2)
            a[k] = v
    inner = r.choice([lambda: [h.text()], lambda: [h.text(), El("b", h.mark(), [h.text()])], lambda: [h.para(90)], lambda: [h.para(60), h.para(120)],
                      lambda: [hidden_el(h, r), h.text()], lambda: [El("div", h.mark(), [h.para(200)])]])()
    if g in ("li",):
        return El("ul", h.mark(), [El("li", a, inner), El("li", None, [h.text()])])
    if g == "td":
        return El("table", h.mark(), [El("tr", None, [El("td", a, inner), El("td", None, [h.text()])])])
    if g == "table":
        return El("table", a, [El("tr", None, [El("td", None, inner), El("td", None, [h.text()])])])
    if g == "a":
        a["href"] = "foo.html"
    if g == "img":
        a["src"] = r.choice(["a.jpg", "b.png"])
    if g in ("img", "br", "hr"):
        return El(g, a)
    return El(g, a, inner)


HIDTAGS = ["div", "p", "span", "section", "ul", "b", "a", "h2", "article", "blockquote", "figure", "header", "em", "pre", "ol", "dl", "main", "nav", "center",
           "address", "h1", "h3", "code", "label", "small", "strong", "font", "form", "details", "svg", "img", "img", "br", "hr", "x-tag", "picture", "video", "del"]


def hidden_grid(ck):
    """Every kind of element with every way of hiding it, eight to a page."""
    combos = [(g, kv) for g in HIDTAGS for kv in HIDE2 + SHOW2]
    ck.rng("hidgrid").shuffle(combos)
    out = []
    for i in range(0, len(combos), 8):
        r = ck.rng("hidgrid", i)
        h = Host(r, cfg(pools=[NEUTRAL], **PLAIN), 500)
        gs = []
        for g, (k, v) in combos[i:i + 8]:
            a = h.mark()
            a[k] = v
            if r.random() < .1:
                a.setdefault("class", "fallback-image")
            if v == "dialog":
                a["aria-modal"] = r.choice(["true", "true", "false"])
            if g == "a":
                a["href"] = "foo.html"
            if g in ("img", "video"):
                a["src"] = "a.jpg" if g == "img" else "//www.youtube.com/v.mp4"
            gs.append(El(g, a, [] if g in ("img", "br", "hr") else [h.img()] if g == "picture" else [El("li", None, [h.text()])] if g in ("ul", "ol") else [h.text()] if r.random() < .7 else [h.para(90)]))
            if g in ("b", "a", "em", "span", "img", "br") and r.random() < .5:
                gs[-1] = El("p", h.mark(), [h.text(), gs[-1], h.text()])
        out.append(h.case(opts={"thr": r.choice([1, 1, 300])}, kids=h.article(gs), cmp=FULL + ("hidden",)))
    return out


def dialog_el(h, r):
    """A dialog, which is dropped in every attempt if it is modal, or something of another role."""
    a = h.mark()
    a["role"] = r.choice(["dialog", "dialog", "dialog", "dialog", "Dialog", "alertdialog", "menu", "navigation", "document", "", " dialog"])
    if r.random() < .8:
        a["aria-modal"] = r.choice(["true", "true", "true", "true", "false", "TRUE", "", "1"])
    if r.random() < .2:
        a["class"] = r.choice(["content", "sidebar", "foo"])
    return El(r.choice(["div", "div", "section", "p", "ul", "article", "blockquote", "span"]), a, [h.para(r.choice([60, 120])) if r.random() < .6 else h.text()])


def hidden(ck, n):
    c = cfg(pools=[UNLIKELY, NEUTRAL, POSITIVE], **PLAIN)
    return (hidden_grid(ck) + hosted(ck, 2 * n, "hid", lambda h, r: [hidden_el(h, r) for _ in range(r.choice([1, 2]))], conf=c, cmp=FULL + ("hidden",)) +
            hosted(ck, n // 2, "dialog", lambda h, r: [dialog_el(h, r)], conf=c, cmp=FULL + ("hidden",), thr=(3000, 3000, 1500, 1)) +
            wild(ck, n, "wild", cfg(hide=.25, nonhide=.2, thr=[1, 100, 400, 3000], dir=0), cmp=("hidden",)) +
            wild(ck, n, "wild2", cfg(hide=.15, nonhide=.2, budget=500, junk=["form", "h1", "header", "div"], thr=[1, 30, 400, 3000]), cmp=FULL + ("hidden",)))


# -- C14 ------------------------------------------------------------------------------
BY2 = BYLINES + [("class", "BYLINE"), ("id", "author"), ("class", "foo byline-x"), ("class", "written-by writtenby"), ("itemprop", "authors"), ("class", "xdatelinex")]
NOBY = [("class", "by"), ("rel", "authors"), ("rel", "Author"), ("rel", "nofollow author"), ("itemprop", "writer"), ("class", "written-by"), ("class", "date"),
        ("name", "author"), ("itemprop", "Author"), ("class", "p-autor"), ("id", "by-line"), ("class", "auth or")]


def byline_el(h, r):
    a = h.mark()
    k, v = r.choice(BY2 if r.random() < .75 else NOBY)
    a[k] = v
    if r.random() < .12:
        k, v = r.choice(HIDERS)
        a[k] = v
    if r.random() < .1 and "class" not in a:
        a["class"] = r.choice(["sidebar", "foo", "comment"])
    n = r.choice([8, 20, 40, 97, 98, 99, 100, 101, 102, 150])
    ch = lambda m: Tx(*([SP] * r.choice([0, 0, 1]) + [h.doc.chunk(m, multi=r.choice([0, 0, 12]))] + [NL] * r.choice([0, 0, 1])))
    inner = r.choice([lambda: [ch(n)], lambda: [ch(n)], lambda: [], lambda: [Tx(SP, SP)], lambda: [El("b", h.mark(), [ch(n)])],
                      lambda: [ch(max(8, n - 30)), El("a", {"href": "foo.html"}, [Tx(h.doc.chunk(29))])],
                      lambda: [El("p", h.mark(), [ch(n)])], lambda: [byline_el(h, r), Tx(SP)], lambda: [El("br")]])()
    g = r.choice(["div", "p", "span", "a", "b", "address", "li", "h3", "section", "td", "h2", "header"])
    return El(g, a, inner)


def bylines(ck, n):
    c = cfg(pools=[NEUTRAL, UNLIKELY, POSITIVE], **PLAIN)
    cm = FULL + ("byline",)
    return (hosted(ck, 3 * n, "by", lambda h, r: [byline_el(h, r) for _ in range(r.choice([1, 1, 2, 3]))], conf=c, cmp=cm) +
            wild(ck, n, "wild", cfg(byline=.3, hide=.05), cmp=("byline",)))


def bylines_meta(ck, n):
    """The metadata names an author: reported instead, the element goes all the same."""
    out = []
    for i in range(n):
        r = ck.rng("bymeta", i)
        h = Host(r, cfg(**PLAIN), 300)
        kids = h.article([byline_el(h, r) for _ in range(r.choice([1, 2]))])
        m = h.doc.chunk(20)
        name = r.choice(["author", "dc:creator", "dcterm.creator"])
        head = [El("meta", {"name": name, "content": h.doc.ch[m - 1]})]
        out.append(finish(h.doc, page(h.doc, kids, head=head), {"thr": r.choice([1, 2000])}, cmp=FULL + ("byline",), mby=[m]))
    return out


# -- C15 ------------------------------------------------------------------------------
def dirlang(ck, n):
    c = cfg(dir=.35, lang=.8, names=.2, hide=.02, byline=.02, thr=[1, 1, 60, 100, 200], pres=.02)
    out = wild(ck, n, "wild", c, cmp=("outcome", "dir", "lang"))
    for i in range(2 * n):
        r = ck.rng("dir", i)
        h = Host(r, cfg(**PLAIN), 400)

        def box(kids, g="div"):
            a = h.mark()
            if r.random() < .5:
                a["dir"] = r.choice(["rtl", "ltr", "auto", "", "RTL"])
            return El(g, a, kids)
        ps = [h.para() for _ in range(r.choice([1, 2, 3]))]
        for q in ps:
            if r.random() < .3:
                q.a.append(("dir", "auto"))
        k = box(ps, r.choice(["div", "article", "section", "main", "blockquote"]))
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            kids = [k]
            if r.random() < .6:
                kids.insert(r.choice([0, 1]), r.choice([lambda: box([h.para(60)]), lambda: h.para(30), lambda: box([h.para(90)], "section"), lambda: El("ul", {"dir": "ltr"}, [El("li", None, [h.text()])])])())
            k = box(kids, r.choice(["div", "div", "section", "article", "main"]))
        ha, ba = {}, {}
        if r.random() < .4:
            ha["dir"] = "rtl"
        if r.random() < .4:
            ba["dir"] = r.choice(["ltr", "auto"])
        if r.random() < .7:
            ha["lang"] = r.choice(["en", "it-IT", "", "zh-Hant", " de ", "x"])
        if r.random() < .2:
            ha["xml:lang"] = "fr"
        if r.random() < .3:
            ba["lang"] = "es"
        if r.random() < .2:
            k.a.append(("lang", "pt"))
        root = page(h.doc, [k], html_attrs=ha, body_attrs=ba)
        out.append(finish(h.doc, root, {"thr": r.choice([1, 1, 1, 100, 300])}, cmp=("outcome", "dir", "lang")))
    return out


# -- C17 ------------------------------------------------------------------------------
def limits(ck, n):
    """Every page with limits around its number of elements."""
    out = []
    for i in range(n):
        r = ck.rng("limit", i)
        w = Wild(r, cfg(thr=[1, 100, 500]), r.choice([60, 200, 400]))
        kids = w.blocks(0, r.choice([1, 2, 3]))
        if i % 3 == 0:
            kids.append(w.para() if hasattr(w, "para") else El("p", w.mark(), [w.text()]))
        odd = [El(r.choice(["wbr", "hr", "br", "img", "embed", "source", "track", "area", "x-y", "template", "svg", "math", "nobr", "ruby", "canvas", "audio", "dialog", "slot", "tt", "object",
                            "col", "map", "param", "keygen", "frame", "input", "b", "p", "script", "style", "noscript", "iframe", "link", "meta", "base", "title", "h1", "li", "td"]), w.mark(), [])
               for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        for e in odd:
            if e.g in ("base", "title", "meta", "frame", "td", "keygen", "param"):
                e.g = "i"
            kids.insert(r.randint(0, len(kids)), e if r.random() < .6 else El("p", w.mark(), [w.text(), e]))
        o = w.options()
        root = page(w.doc, kids, head=[El("meta", {"name": "x", "content": "y"})] if r.random() < .5 else [])
        cnt = sum(1 for x in w.doc.arena(root) if x["g"])
        for m in (cnt - 1, cnt, cnt + 1, 0, -1, r.choice([1, 2, cnt // 2, -cnt, 2 * cnt])):
            out.append(finish(w.doc, root, dict(o, max=m), cmp=FULL))
    return out


# -- C19 ------------------------------------------------------------------------------
def table_el(h, r, d=0):
    a = h.mark()
    for k, v in (("summary", r.choice(["s", ""])), ("role", r.choice(["presentation", "grid", "Presentation"])), ("datatable", r.choice(["0", "1"]))):
        if r.random() < .15:
            a[k] = v
    if r.random() < .4:
        a["class"] = r.choice(["sidebar", "widget", "foo", "content"])
    rows, cols = r.choice([(1, 1), (1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (9, 1), (10, 1), (11, 1), (1, 4), (1, 5), (2, 5), (3, 3), (3, 4), (5, 2), (2, 4), (11, 2), (4, 3)])
    trs = []
    for _ in range(rows):
        ra = {}
        if r.random() < .08:
            ra["rowspan"] = r.choice(["2", "9", "x", "0", "1", "10"])
        cells = []
        for _ in range(cols):
            ca = h.mark() if r.random() < .3 else {}
            if r.random() < .08:
                ca["colspan"] = r.choice(["2", "4", "5", "x", "0"])
            kids = []
            if rows * cols < 3 or r.random() < .4:
                kids = r.choice([lambda: [h.text()], lambda: [h.text(), El("b", None, [h.text()])], lambda: [h.para(60)], lambda: [h.para(60), h.para(30)],
                                 lambda: [El("a", {"href": "foo.html"}, [h.text()])], lambda: [], lambda: [Tx(SP)], lambda: [h.img()],
                                 lambda: [El("ul", None, [El("li", None, [El("a", {"href": "foo.html"}, [h.text()])]) for _ in range(3)])],
                                 lambda: [El("div", {"class": "sidebar"}, [h.text(), El("input", {"type": "text"})])],
                                 lambda: [table_el(h, r, d + 1)] if d < 1 else [h.text()]])()
                if r.random() < .15:
                    for _ in range(r.choice([1, 2, 3, 4, 6, 8])):
                        kids = [El(r.choice(["div", "section", "ul", "blockquote", "span"]), None, kids + ([h.text()] if r.random() < .5 else []))]
            cells.append(El("th" if r.random() < .02 else "td", ca, kids))
        trs.append(El("tr", ra, h.sep(cells)))
    kids = h.sep(trs)
    if r.random() < .4:
        kids = [El("tbody", h.mark() if r.random() < .5 else {}, kids)]
    if r.random() < .2:
        kids.insert(0, r.choice([lambda: El("caption", None, [h.text()]), lambda: El("caption"), lambda: El("caption", None, [El("b")]), lambda: El("col", {"width": "3"}),
                                 lambda: El("colgroup", None, [El("col")]), lambda: El("thead", None, [El("tr", None, [El("td", None, [h.text()])])]),
                                 lambda: El("tfoot"), lambda: El("tbody")])())
    return El("table", a, kids)


FISHY = [
    lambda h, r: [El("div", {"class": "sidebar"}, [h.text()])],
    lambda h, r: [El("ul", h.mark(), [El("li", None, [El("a", {"href": "foo.html"}, [h.text()])]) for _ in range(3)])],
    lambda h, r: [El("form", h.mark(), [h.text(), El("b", None, [h.text()])])],
    lambda h, r: [El("div", h.mark(), [El("a", {"href": "foo.html"}, [h.text()]), h.text()])],
    lambda h, r: [El("section", {"class": "comment"}, [El("p", None, [h.text()])])],
    lambda h, r: [El("div", h.mark(), [h.img(), h.img(), h.text()])],
]


def datatable_el(h, r):
    """A table at the limit of what is data, with what would be removed were it none: in a cell, or as a whole."""
    a = h.mark()
    k = r.random()
    if k < .05:
        a["summary"] = r.choice(["s", ""])
    elif k < .1:
        a["role"] = r.choice(["presentation", "grid", "Presentation", ""])
    elif k < .15:
        a["datatable"] = r.choice(["0", "1", "", "00"])
    whole = r.random() < .4
    if whole:
        a["class"] = r.choice(["sidebar", "widget", "comment"])
    rows, cols = r.choice([(9, 1), (10, 1), (11, 1), (8, 1), (1, 4), (1, 5), (1, 3), (5, 2), (5, 2), (5, 2), (5, 2), (3, 3), (3, 4), (4, 3), (2, 4), (6, 2), (2, 2), (1, 2), (2, 1), (4, 2)])
    span = {}
    if r.random() < .35:             # the same sizes, partly by spans
        rows, cols, span = r.choice([(2, 1, {"rowspan": "8"}), (2, 1, {"rowspan": "9"}), (2, 1, {"rowspan": "7"}), (1, 2, {"colspan": "4"}), (1, 2, {"colspan": "3"}), (1, 2, {"colspan": "2"}),
                                     (3, 2, {"colspan": "2"}), (3, 2, {"colspan": "3"}), (3, 2, {"rowspan": "3"}), (3, 2, {"rowspan": "3"}), (4, 2, {"rowspan": "2"}), (3, 2, {"rowspan": "4"}), (2, 2, {"colspan": "x"}), (2, 3, {"colspan": "0"}),
                                     (3, 3, {"rowspan": "x"}), (9, 1, {"rowspan": "0"}), (9, 1, {"rowspan": "2"})])
    trs = []
    at = r.randrange(rows)
    for j in range(rows):
        cells = []
        for m in range(cols):
            ca = dict(h.mark() if r.random() < .2 else {})
            if j == at and m == 0 and "colspan" in span:
                ca.update(span)
            kids = r.choice(FISHY)(h, r) if not whole and j == at and m == 0 else [h.text()] if r.random() < .5 or whole and j == 0 else []
            if not whole and j == at and m == 0 and r.random() < .4:
                for _ in range(r.choice([1, 2, 3])):
                    kids = [El(r.choice(["div", "section", "center"]), h.mark(), kids)]
            cells.append(El("td", ca, kids))
        if r.random() < .1:
            cells.append(El("td"))
        trs.append(El("tr", dict(span) if j == at and "rowspan" in span else None, h.sep(cells)))
    kids = h.sep(trs)
    if r.random() < .4:
        kids = [El("tbody", None, kids)]
    if r.random() < .4:
        e = r.choice([lambda: El("caption", None, [h.text()]), lambda: El("caption"), lambda: El("caption", None, [El("b")]), lambda: El("caption", None, [Tx(SP)]), lambda: El("col"),
                      lambda: El("colgroup"), lambda: El("colgroup"), lambda: El("thead", None, [El("tr", None, [El("td", None, [h.text()])])]), lambda: El("thead"),
                      lambda: El("tfoot"), lambda: El("tr", None, [El("th", None, [h.text()])]), lambda: El("tr", None, [El("th")]), lambda: El("tbody")])()
        kids.insert(r.choice([0, len(kids)]), e)
    return El("table", a, kids)


def tables(ck, n):
    c = cfg(lengths=[5, 8, 12, 20], blank=.1, **PLAIN)
    return _tables(ck, n) + hosted(ck, 3 * n, "data", lambda h, r: [datatable_el(h, r)], conf=c, thr=(1, 1, 1, 300, 500))


def _tables(ck, n):
    c = cfg(lengths=[5, 8, 12, 20, 30, 60], blank=.2, **PLAIN)
    return hosted(ck, 3 * n, "tab", lambda h, r: [table_el(h, r)], conf=c, thr=(1, 100, 300, 500, 3000)) + \
        wild(ck, n, "wild", cfg(block=dict(BASE["block"], table=30), budget=500))


# -- C20 ------------------------------------------------------------------------------
SRC = ["a.jpg", "b.png", "c.gif", "d.webp", "e.jpeg?x=1", "/img/f.svg", "data:image/gif;base64,R0lGOD", "data:image/png;base64,", "data:image/svg+xml;base64,PHN2Zw",
       "B64:50", "B64:131", "B64:132", "B64:133", "B64:134", "B64:300", "null", "", "x", "DATA:IMAGE/PNG;BASE64,AAAA", "data:image/png,abc",
       "data:image/svg;base64,AAAA", "data:image/svg-xml;base64,AAAA", "data:image/png;base64,AA.jpg", "data:image/png;base64,A.webp 2x", "data:text/plain;base64,AAAA"]
VAL = ["g.jpg", "h.png 2x", "i.webp 1x, j.webp 2x", "k.jpeg", "l.gif", "m.jpg 300w", "some text n.png here", "http://x.example/o.jpg", "p.jpgx", ".jpg", "q.JPG", "r.png?y", "s", "t.jpg,u.jpg 2x"]
KEYS = ["data-src", "data-srcset", "data-original", "data-lazy", "title", "alt", "data-x", "longdesc", "data-old-src"]


def lazyattrs(h, r, lo=0):
    items = []
    used = set()
    for _ in range(r.choice([lo, 1, 2, 2, 3, 4])):
        k = r.choice(["src", "src", "srcset", "class"] + KEYS)
        if k in used:
            continue
        used.add(k)
        v = r.choice(SRC) if k == "src" else r.choice(["lazy", "foo", "xLazyy lazyload", "LAZY", "bar"]) if k == "class" else \
            r.choice(["", "null", "v.jpg 2x", "w.png"]) if k == "srcset" else r.choice(VAL)
        if v.startswith("B64:"):
            v = "data:image/png;base64," + "A" * int(v[4:])
        items.append((k, v))
    r.shuffle(items)
    h.n += 1
    return [("data-n", str(h.n))] + items if r.random() < .8 else items


def lazy_el(h, r):
    k = r.choice(["img", "img", "img", "picture", "figure", "noscript", "noscript", "noscript", "figimg"])
    if k == "img":
        return [El("p", h.mark(), [Tx(h.doc.chunk(80, commas=2)), El("img", lazyattrs(h, r))])] if r.random() < .5 else [El("img", lazyattrs(h, r))]
    if k == "picture":
        return [El("picture", lazyattrs(h, r), [El("img", lazyattrs(h, r))] if r.random() < .7 else [])]
    if k == "figure":
        return [El("figure", lazyattrs(h, r), r.choice([lambda: [], lambda: [El("figcaption", None, [h.text()])], lambda: [El("img", lazyattrs(h, r))],
                                                        lambda: [El("picture", None, [])]])())]
    if k == "figimg":
        return [El("figure", h.mark(), [El("img", lazyattrs(h, r)), El("figcaption", None, [h.text()])])]
    inner = r.choice([lambda: [El("img", lazyattrs(h, r, 1))], lambda: [El("img", lazyattrs(h, r, 1))], lambda: [El("p", None, [El("img", lazyattrs(h, r, 1))])],
                      lambda: [El("img", lazyattrs(h, r)), El("img", lazyattrs(h, r))], lambda: [El("img", lazyattrs(h, r)), h.text()],
                      lambda: [h.text()], lambda: [], lambda: [Tx(SP), El("img", lazyattrs(h, r, 1)), Tx(NL)]])()
    ns = El("noscript", {}, inner)
    before = r.choice([lambda: [El("img", lazyattrs(h, r))], lambda: [El("img", lazyattrs(h, r, 1))], lambda: [El("p", h.mark(), [El("img", lazyattrs(h, r, 1))])],
                       lambda: [El("div", h.mark(), [El("a", {"href": "foo.html"}, [El("img", lazyattrs(h, r, 1))])])], lambda: [],
                       lambda: [El("img", lazyattrs(h, r, 1)), El("br")], lambda: [El("img", lazyattrs(h, r, 1)), h.text()],
                       lambda: [El("img", lazyattrs(h, r, 1)), Tx(SP)], lambda: [El("img", lazyattrs(h, r, 1)), El("p", h.mark(), [h.text()])],
                       lambda: [El("p", h.mark(), [h.text(), El("img", lazyattrs(h, r, 1))])]])()
    kids = before + [ns]
    if r.random() < .3:
        kids.append(El("noscript", {}, [El("img", lazyattrs(h, r, 1))]))
    return [El(r.choice(["div", "figure", "p", "div"]), h.mark(), kids)] if r.random() < .6 else kids


IMGEXT = re.compile(r"(?i)\.(jpg|jpeg|png|webp)")
PLACE = ["a.jpg", "x", "photo", "/img/1", "b.png 2x", "data:image/gif;base64,R0lGOD", "", "null", "c.webp"]


def placeholder_el(h, r):
    """A placeholder and the image that a noscript has for it: attributes in common, equal or not, blank or not, that name an image or do not."""
    keys = ["src", "src", "srcset", "srcset", "data-src", "title", "alt", "data-srcset", "longdesc", "class"]
    old, new = {}, {}
    for k in r.sample(keys, r.choice([1, 2, 3, 4])):
        v = r.choice(PLACE)
        old[k] = v
        if r.random() < .6:
            new[k] = v if r.random() < .5 else r.choice(PLACE)
    if r.random() < .6 and not new.get("src"):
        new["src"] = r.choice(PLACE)
    if not any(IMGEXT.search(v) or k in ("src", "srcset") for k, v in new.items()):
        new["src"] = "n.jpg"
    h.n += 2
    old["data-n"] = str(h.n - 1)
    new["data-n"] = str(h.n)
    o, w = list(old.items()), list(new.items())
    r.shuffle(o), r.shuffle(w)
    old, new = El("img", o), El("img", w)
    if r.random() < .3:
        old = El(r.choice(["p", "div", "a", "picture", "span"]), h.mark(), [old])
    return [El(r.choice(["div", "figure", "p", "section"]), h.mark(), [old] + ([Tx(SP)] if r.random() < .3 else []) + [El("noscript", None, [new])] + ([h.text()] if r.random() < .3 else []))]


def lazyclass_el(h, r):
    """An image marked as lazy: its attributes in any order, those that count and those that do not, with or without an image's name."""
    a = [("class", r.choice(["lazy", "lazyload", "LAZY", "x lazy", "b-lazy.jpg", "foo"]))]
    for k in r.sample(["src", "srcset", "alt", "data-src", "title", "data-srcset", "data-x", "alts", "src2"], r.choice([1, 2, 3])):
        a.append((k, r.choice(VAL + ["x", ""])))
    r.shuffle(a)
    g = r.choice(["img", "img", "img", "picture", "figure"])
    return [El("p", h.mark(), [h.text(), El("img", a)])] if g == "img" and r.random() < .5 else [El(g, a)]


def lazy(ck, n):
    c = cfg(blank=.1, **PLAIN)
    cm = FULL + ("images",)
    return _lazy(ck, n) + hosted(ck, n, "place", placeholder_el, conf=c, cmp=cm, thr=(1, 1, 500, 3000)) + hosted(ck, n // 2, "lazyclass", lazyclass_el, conf=c, cmp=cm, thr=(1, 1, 500))


def _lazy(ck, n):
    c = cfg(imgvals=SRC[:7] + VAL, blank=.2, **PLAIN)
    cm = FULL + ("images",)
    return hosted(ck, 3 * n, "lazy", lazy_el, conf=c, cmp=cm, thr=(1, 300, 500, 3000)) + \
        wild(ck, n, "wild", cfg(inline=dict(BASE["inline"], img=40), block=dict(BASE["block"], figure=15), budget=500, imgvals=SRC + VAL), cmp=("images",))


# -- C23 ------------------------------------------------------------------------------
def many_items(h, r):
    """A block with about a hundred list items more than paragraphs."""
    ps = r.choice([0, 1, 2, 3])
    kids = [h.para(r.choice([60, 120, 250]), commas=1) for _ in range(ps)] + [Tx(h.doc.chunk(r.choice([60, 150])))]
    kids.insert(r.randint(0, len(kids)), El(r.choice(["ul", "ol"]), h.mark(), [El("li", None, [h.text()] if j < 2 else []) for j in range(100 + ps + r.choice([-1, 0, 0, 1, 1, 2]))]))
    return El(r.choice(["div", "div", "form", "fieldset", "ul"]), h.mark(), kids)


def cond_el(h, r):
    if r.random() < .04:
        return many_items(h, r)
    g = r.choice(["div", "div", "div", "ul", "ol", "table", "form", "fieldset", "header", "section", "blockquote", "dl"])
    a = h.mark()
    if r.random() < .45:
        a[r.choice(["class", "id"])] = r.choice(r.choice([NEGATIVE, POSITIVE, NEUTRAL, SHARE, NEUTRAL]))
    parts = []
    commas = r.choice([0, 0, 0, 1, 9, 10, 11])
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        m = r.choice([8, 15, 24, 25, 26, 60, 79, 80, 81, 199, 200, 201, 300])
        parts.append(Tx(h.doc.chunk(max(m, 12 + 3 * commas), commas=commas, wide=r.choice([0, 0, 1]), multi=r.choice([0, 0, 9]))))
        commas = 0
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        k = r.choice(["a", "a", "img", "img", "input", "li", "h3", "embed", "iframe", "object", "p", "p", "hash", "code", "fig", "ulimg", "share", "h2", "h1", "tab", "hr", "para"])
        if k == "a" or k == "hash":
            m = r.choice([5, 10, 20, 50])
            parts.append(El("a", {"href": "#x" if k == "hash" else "foo.html"}, [Tx(h.doc.chunk(m))]))
        elif k == "img":
            parts.append(El("img", {"src": "a.jpg"}))
        elif k == "input":
            parts.append(El("input", {"type": "text"}))
        elif k == "li":
            parts.append(El("ul", h.mark() if r.random() < .5 else {}, [El("li", None, [h.text()] if r.random() < .7 else [El("a", {"href": "foo.html"}, [h.text()])]) for _ in range(r.choice([1, 3, 5]))]))
        elif k in ("h3", "h2", "h1"):
            parts.append(El(k, dict(h.mark(), **({r.choice(["class", "class", "id"]): r.choice(["widget", "share", "content", "widget foo", "hid", "banner"])} if r.random() < .4 else {})), [h.text()]))
        elif k == "embed":
            parts.append(El("embed", {r.choice(["src", "title"]): r.choice(EMBEDS)}))
        elif k == "iframe":
            parts.append(El("iframe", {r.choice(["src", "data-x"]): r.choice(EMBEDS)}, []))
        elif k == "object":
            parts.append(h.junk("object"))
        elif k in ("p", "para"):
            parts.append(El("p", h.mark(), [h.text()] if k == "p" else [Tx(h.doc.chunk(200, commas=3))]))
        elif k == "code":
            parts.append(El("code", None, [h.text()]))
        elif k == "fig":
            parts.append(El("figure", None, [El("img", {"src": "a.jpg"})]))
        elif k == "hr":
            parts.append(El("hr"))
        elif k == "tab":
            parts.append(El("table", {"summary": "s"} if r.random() < .5 else {}, [El("tr", None, [El("td", None, [h.text()]), El("td", None, [El("img", {"src": "b.jpg"})])])]))
        elif k == "ulimg":
            parts.append(El("ul", None, [El("li", None, [El("img", {"src": "a.jpg"})] + ([h.text()] if r.random() < .2 else [])) for _ in range(r.choice([1, 2, 3]))]))
        elif k == "share":
            parts.append(El("div", {"class": r.choice(SHARE)}, [Tx(h.doc.chunk(r.choice([8, 499, 500, 501, 520])))]))
    r.shuffle(parts)
    if g in ("ul", "ol"):
        mode = r.random()
        if mode < .3:
            parts = [El("li", None, [El("img", {"src": "a.jpg"})]) for _ in range(r.choice([1, 2, 3]))] + ([El("li", None, [h.text()])] if r.random() < .3 else [])
        else:
            parts = [El("li", None, [q]) for q in parts]
    if g == "table":
        parts = [El("tr", None, [El("td", None, [q]) for q in parts])] if parts else []
    e = El(g, a, parts)
    if r.random() < .12:
        for _ in range(r.choice([0, 0, 1, 2, 2, 3, 4])):
            e = El(r.choice(["div", "section", "span", "blockquote"]), None, [e] + ([h.text()] if r.random() < .4 else []))
        e = El(r.choice(["code", "figure", "table"]), h.mark(), [e])
    return e


def cond_rule(h, r):
    """An element at the limit of one of the rules, with nothing else against it."""
    ch = h.doc.chunk
    T = lambda n, **kw: Tx(ch(n, **kw))
    bad = lambda: r.choice([lambda: El("iframe", {r.choice(["src", "title"]): "http://ads.example/y"}, []), lambda: El("embed", {"src": "http://ads.example/e"}),
                            lambda: El("object", {"data": "http://ads.example/o"}, [])])()
    img = lambda: El("img", {"src": "a.jpg"})
    boxed = lambda *k: El(r.choice(["pre", "blockquote", "h4"]), None, list(k))     # neither a paragraph nor made one
    g = r.choice(["form", "fieldset", "div", "div", "table", "ul", "ol", "section"])
    a, wrap = h.mark(), []
    mode = r.choice(["embed", "embed", "img", "img", "input", "short", "short", "link", "link", "link", "comma", "share", "imglist", "imglist"])
    if mode == "embed":
        g = r.choice(["form", "fieldset", "form", "div"])
        n = r.choice([74, 75, 76, 74, 75, 30, 120])
        kids = [El("p", h.mark(), [T(n, multi=r.choice([0, 0, 5]))])]
        for _ in range(r.choice([0, 1, 1, 1, 1, 2, 2])):
            kids.append(bad())
        if r.random() < .35:
            v = "//www.youtube.com/x"
            kids.append(r.choice([lambda: El("object", {"data": "x.swf"}, [El("param", {"name": "movie", "value": r.choice([v, v, "http://ads.example/z"])})]),
                                  lambda: El("iframe", {"src": "x", "data-u": v}, []), lambda: El(r.choice(["iframe", "iframe", "embed"]), {"src": "x"}, [El("a", {"href": v}, [T(8)])]), lambda: El("object", {}, [El("embed", {"src": v})]),
                                  lambda: El("object", {}, [El("a", {"href": r.choice([v, "foo.html"])}, [T(8)])]), lambda: El("iframe", {"src": v}, []),
                                  lambda: El("embed", {"src": v})])())
        r.shuffle(kids)
    elif mode == "img":
        k = r.choice([1, 2, 3, 4, 5, 7, 9])
        ps = max(0, r.choice([k // 2, k // 2, (k + 1) // 2, k // 2 + 1, k // 2 - 1]))
        kids = [El("p", h.mark(), [T(60)]) for _ in range(ps)] + [img() for _ in range(k)] + [boxed(T(80))]
        r.shuffle(kids)
        if r.random() < .5:
            wrap = ["figure"] + [r.choice(["div", "section", "center", "blockquote"]) for _ in range(r.choice([0, 2, 3, 3, 3, 4, 4]))]
    elif mode == "input":
        g = r.choice(["form", "fieldset"])
        k = r.choice([0, 1, 1, 2])
        kids = [El("p", h.mark(), [T(40)]) for _ in range(max(0, 3 * k + r.choice([-1, 0, 1, 2])))] + [El("input", {"type": r.choice(["text", "hidden", "submit"])}) for _ in range(k)] + [boxed(T(50))]
        r.shuffle(kids)
    elif mode == "short":
        hs = lambda n: El(r.choice(["h1", "h2", "h3", "h4", "h5", "h6"]), None, [T(n, multi=r.choice([0, 0, 2]))])
        kids = r.choice([
            lambda: [boxed(T(r.choice([23, 24, 25, 26]), multi=r.choice([0, 0, 4])))],
            lambda: [El("p", None, [T(r.choice([23, 24, 25, 26]))])],
            lambda: [hs(9), Tx(*[NB] * r.choice([1, 2, 3])), hs(9)],
            lambda: [hs(r.choice([8, 9, 10])), Tx(*[NB] * r.choice([1, 2])), hs(r.choice([8, 9]))],
            lambda: [hs(r.choice([20, 24, 25]))],
            lambda: [hs(r.choice([18, 20])), boxed(T(5))]])()
        k = r.choice([0, 0, 0, 1, 2, 3, 3, 4])
        kids += [img() for _ in range(k)] + ([El("p") for _ in range((k + 1) // 2)] if k > 1 else [])
        if g == "div" and not any(isinstance(q, El) and q.g in ("p", "img", "pre", "blockquote") for q in kids):
            kids.append(El("pre"))
        if r.random() < .3:
            wrap = ["figure"] + [r.choice(["div", "section", "center"]) for _ in range(r.choice([0, 2, 3, 3, 3, 4, 4]))]
    elif mode == "link":
        w = r.choice([0, 0, 25, 25, 50])
        if w:
            a[r.choice(["class", "id"]) if w == 25 else "class"] = r.choice(["content", "entry", "story"])
        if w == 50:
            a["id"] = r.choice(["content", "entry"])
        L = (20 if not w else 50) + r.choice([-1, 0, 0, 1])
        hash_ = r.random() < .25
        m = r.choice([1, 2])
        if hash_:                       # a link within the page counts three tenths
            L, m, tot = (r.choice([99, 100, 101]), 1, 150) if not w else (100, 1, 100)
        else:
            tot = 100
        rest = tot * m - L * m
        kids = [El("a", {"href": r.choice(["#x", "#top"]) if hash_ else r.choice(["foo.html", "http://h.example/#x", ""])}, [T(L * m)])]
        if rest:
            kids.insert(r.choice([0, 1]), r.choice([lambda q: T(q), lambda q: El("b", None, [T(q)])])(rest))
        kids = [El(r.choice(["p", "blockquote", "pre"]), None, kids)]
        if r.random() < .15:            # the same, split over two paragraphs
            kids.append(El("p", None, [T(80), El("a", {"href": "foo.html"}, [T(20)])]))
    elif mode == "comma":
        kids = [El("pre", None, [T(90, commas=r.choice([9, 10, 11]), wide=r.choice([0, 0, 1]))])] + r.choice([lambda: [img(), img()], lambda: [El("p", None, [El("a", {"href": "foo.html"}, [T(60)])])]])()
    elif mode == "share":
        L, mu = r.choice([(90, 0), (91, 0), (89, 0), (95, 0), (85, 6), (88, 9), (90, 0), (91, 0)])
        u = r.random() < .5
        li = El("li", None, [El("a", {"href": "foo.html"}, [T(L, multi=mu)])])
        lists = [El(r.choice(["ul", "ol"]), None, [li] if u else [El("li", None, [El("a", {"href": "foo.html"}, [T(L - 40, multi=mu)]), T(40)])])]
        kids = lists + [El("pre", None, [T(100 - L)])]
        g = r.choice(["div", "form", "fieldset", "table"])
    else:                               # a list of images
        n = r.choice([2, 2, 3])
        odd = r.choice(["", "", "", "two", "text", "missing", "extra", "sub", "bare"])
        lis = [El("li", None, [img()]) for _ in range(n)]
        j = r.randint(0, n - 1)
        if odd == "two":
            lis[j].k = [img(), El(r.choice(["b", "br", "img"]), None, [])] if r.random() < .5 else [El("a", {"href": "foo.html"}, [T(5)]), img()]
        elif odd == "text":
            lis[j].k = [T(8), img()]
        elif odd == "missing":
            lis[j].k = [T(8)]
        elif odd == "extra":
            lis[j].k = [El("span", None, [img(), img()])]
        elif odd == "sub":
            lis[j].k = [El("ul", None, [El("li", None, [img()])])]
        if odd == "bare":
            lis.insert(j, img())
        g = r.choice(["ul", "ul", "ol", "div"])
        kids = lis if g != "div" else [El("ul", None, lis)]
        if g == "div" and r.random() < .3:
            kids = lis
        el = El(g, a, kids)
        return El("div", h.mark(), [el]) if r.random() < .3 else el
    if g in ("ul", "ol"):
        kids = [El("li", None, kids)]
    elif g == "table":
        kids = [El("tr", None, [El("td", None, kids), El("td", None, [])])]
    e = El(g, a, kids)
    if not wrap and r.random() < .2:        # within code, or within a table that holds data, it stays
        wrap = [r.choice(["code", "data"])]
        wrap += [r.choice(["div", "section", "center", "blockquote"]) for _ in range(r.choice([0, 1, 2, 3, 3, 3, 4, 4, 6]))]
    for q in reversed(wrap):
        if q == "data":
            e = El("table", {"summary": "s"} if r.random() < .8 else {}, [El("tr", None, [El("td", None, [e]), El("td", None, [])])])
        else:
            e = El(q, None if q == "figure" else h.mark(), [e])
    return e


def conditional(ck, n):
    c = cfg(blank=.15, pools=[NEUTRAL, POSITIVE, NEGATIVE], names=.2, vid=.25, **PLAIN)
    c2 = cfg(blank=0, names=.05, **dict(PLAIN, vid=.1))
    out = hosted(ck, 4 * n, "cond", lambda h, r: [cond_el(h, r) for _ in range(r.choice([1, 1, 2]))], conf=c, thr=(1, 1, 100, 300, 500, 3000))
    for i in range(4 * n):
        r = ck.rng("rule", i)
        h = Host(r, c2, 500)
        gs = []
        for _ in range(r.choice([1, 2, 3])):
            gs += h.nest([cond_rule(h, r)], r.choice([0, 0, 0, 1]))
        out.append(h.case(opts={"thr": r.choice([1, 1, 100])}, kids=h.article(gs), cmp=FULL))
    return out + wild(ck, n, "wild", cfg(thr=[1, 1, 60, 300], hide=.02))


# -- C24 ------------------------------------------------------------------------------
def breaks_el(h, r):
    def run(inline=True):
        q = []
        for _ in range(r.choice([2, 3, 4, 5, 7])):
            k = r.choice(["br", "br", "br", "ws", "text", "text", "b", "a", "img", "block", "inlbr", "nb", "span0"])
            q.append({"br": lambda: El("br", {} if r.random() < .8 else {"class": "foo"}), "ws": lambda: Tx(*r.choice([[SP], [NL], [SP, NL]])), "nb": lambda: Tx(NB),
                      "text": lambda: Tx(h.doc.chunk(r.choice([10, 30, 90]), dot=r.choice(["", "end"]))), "b": lambda: El("b", h.mark(), [h.text()]),
                      "a": lambda: El("a", {"href": "foo.html"}, [h.text()] if r.random() < .7 else [El("br"), El("br"), h.text()]), "img": lambda: El("img", {"src": "a.jpg"}),
                      "block": lambda: El(r.choice(["p", "div", "ul", "blockquote", "h3", "table", "hr", "pre"]), h.mark(), [h.text()] if r.random() < .8 else [El("br"), El("br"), h.text()]),
                      "inlbr": lambda: El("span", h.mark(), [h.text(), El("br"), El("br"), h.text()]), "span0": lambda: El("span", h.mark(), [])}[k]())
        return q
    g = r.choice(["div", "p", "p", "section", "blockquote", "td", "li", "span", "pre", "article", "font", "center", "ins", "del"])
    e = El(g, h.mark(), run())
    if g == "td":
        e = El("table", None, [El("tr", None, [e, El("td", None, [h.text()])])])
    if g == "li":
        e = El("ul", None, [e])
    return e


def single_el(h, r):
    """A block around a single paragraph about a quarter of which is linked."""
    n = r.choice([40, 80, 100, 120])
    m = n // 4 + r.choice([0, 0, 0, 1, -1, 5, -5])
    href = r.choice(["foo.html", "foo.html", "foo.html", "#x"])
    if href == "#x":          # counts three tenths
        n, m = r.choice([(120, 100), (120, 99), (120, 101), (60, 50), (60, 51)])
    com = r.choice([0, 0, 10])
    t = Tx(h.doc.chunk(n - m, commas=com if n - m > 45 else 0))
    k = [t, El("a", {"href": href}, [Tx(h.doc.chunk(m))])]
    if r.random() < .3:
        k.reverse()
    a = h.mark()
    if r.random() < .7:
        a["class"] = r.choice(["content", "entry", "foo", "story"])
    q = [El(r.choice(["p", "p", "p", "p", "section", "div"]), h.mark(), k)]
    if r.random() < .3:
        q.insert(r.choice([0, 1]), r.choice([lambda: Tx(SP), lambda: Tx(NL), lambda: El("br"), lambda: h.text()])())
    return El(r.choice(["div", "div", "div", "section"]), a, q)


def vacant_el(h, r):
    """A block that is empty, or nearly."""
    g = r.choice(["div", "section", "header", "h1", "h2", "h3", "h4", "h5", "h6", "p", "span", "blockquote", "article", "ul", "main", "pre"])
    k = r.choice([lambda: [], lambda: [Tx(SP)], lambda: [El("br")], lambda: [El("hr")], lambda: [El("br"), El("hr"), Tx(NL)], lambda: [El("br"), El("b")], lambda: [El("span", h.mark())], lambda: [Tx(NB)],
                  lambda: [El("img", {"src": "a.jpg"})], lambda: [El("br"), El("br"), El("br")], lambda: [El("i", None, [El("br")])], lambda: [h.text()], lambda: [El("hr"), h.text()],
                  lambda: [vacant_el(h, r)], lambda: [vacant_el(h, r), El("br")], lambda: [El("wbr")], lambda: [El("div", h.mark(), [El("br"), El("hr")]), El("hr")]])()
    e = El(g, h.mark(), k)
    if g in ("span",):
        return El("p", h.mark(), [h.text(), e])
    return El("ul", h.mark(), [El("li", None, k)]) if g == "ul" else e


def layout_el(h, r, d=0):
    g = r.choice(["div", "div", "section", "div", "p", "article"])
    a = h.mark()
    if r.random() < .08:
        for k in r.sample(["at%d" % j for j in range(15)], r.choice([5, 9, 14])):
            a[k] = "w%d" % d
    for k in r.sample(["id", "title", "lang", "class", "data-x"], r.choice([0, 0, 1, 2])):
        a[k] = r.choice(["foo", "bar", "readability-x", "my-readability", "c1", "v%d" % d])
    kids = []
    for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])):
        k = r.choice(["nest", "nest", "nest", "text", "br", "hr", "ws", "p", "empty", "img", "brp", "nb"])
        if k == "nest" and d < 4:
            kids.append(layout_el(h, r, d + 1))
        elif k in ("text", "nest"):
            kids.append(h.text())
        elif k in ("br", "hr"):
            kids += [El(k)] * r.choice([1, 1, 2])
        elif k == "ws":
            kids.append(Tx(*r.choice([[SP], [NL]])))
        elif k == "nb":
            kids.append(Tx(NB))
        elif k == "p":
            kids.append(El("p", h.mark(), r.choice([lambda: [h.text()], lambda: [], lambda: [Tx(SP)], lambda: [El("br")], lambda: [El("img", {"src": "a.jpg"})], lambda: [El("iframe", {"src": "//www.youtube.com/x"}, [])], lambda: [El("span")]])()))
        elif k == "empty":
            kids.append(El(r.choice(["div", "section", "p", "h2", "span", "b"]), h.mark(), []))
        elif k == "img":
            kids.append(El("img", {"src": "a.jpg"}))
        else:
            kids += [El("br"), El("p", h.mark(), [h.text()])]
    return El(g, a, [k if isinstance(k, Tx) or k.g not in ("br", "hr") else El(k.g, k.a) for k in kids])


def layout(ck, n):
    c = cfg(blank=.2, brrun=.2, names=.1, **PLAIN)
    cm = FULL + ("selected",)
    return (hosted(ck, 2 * n, "brs", lambda h, r: [breaks_el(h, r)], conf=c, cmp=cm, thr=(1, 500, 3000)) +
            hosted(ck, 2 * n, "layout", lambda h, r: [layout_el(h, r)], conf=c, cmp=cm, thr=(1, 500, 3000)) +
            hosted(ck, n, "single", lambda h, r: [single_el(h, r), single_el(h, r)], conf=cfg(blank=.1, **PLAIN), cmp=cm, thr=(1, 1, 1, 3000)) +
            hosted(ck, n, "vacant", lambda h, r: [vacant_el(h, r), vacant_el(h, r), vacant_el(h, r)], conf=cfg(blank=.1, **PLAIN), cmp=cm, thr=(1, 1, 1, 3000)) +
            wild(ck, n, "wild", cfg(brrun=.5, inline=dict(BASE["inline"], br=30), thr=[1, 1, 200, 2000], hide=.02, budget=500), cmp=cm))


# -- C25 ------------------------------------------------------------------------------
def excerpts(ck, n):
    c = cfg(block=dict(BASE["block"], inline=25, list=12, h=12, pre=6), brrun=.25, budget=500)
    out = wild(ck, 2 * n, "wild", c, cmp=("outcome", "excerpt"))
    out += hosted(ck, n, "exc", lambda h, r: [r.choice([lambda: El("p", h.mark(), []), lambda: El("p", h.mark(), [Tx(SP)]), lambda: El("p", h.mark(), [El("img", {"src": "a.jpg"})]),
                                                       lambda: El("p", h.mark(), [El("b", None, [h.text()]), h.text()]), lambda: El("blockquote", None, [h.para(40)]),
                                                       lambda: El("pre", None, [h.text()]), lambda: El("p", h.mark(), [Tx(SP, NL), h.text(), El("br"), Tx(SP), h.text(), Tx(NB)])])()],
                  cmp=("outcome", "excerpt"))
    for i in range(n // 2):     # pages without any paragraph
        r = ck.rng("nop", i)
        h = Host(r, cfg(**PLAIN), 200)
        g = r.choice(["pre", "ul", "h3", "blockquote", "dl"])
        box = El("div", h.mark(), [El(g, h.mark(), [El("li", None, [h.text()])] if g == "ul" else [h.text()]) for _ in range(r.choice([1, 2, 3]))])
        out.append(h.case(opts={"thr": r.choice([1, 500])}, kids=[box], cmp=("outcome", "excerpt")))
    return out


def excerpts_meta(ck, n):
    out = []
    for i in range(n):
        r = ck.rng("excmeta", i)
        h = Host(r, cfg(**PLAIN), 300)
        kids = h.article([h.para(60)])
        m = h.doc.chunk(r.choice([20, 60]))
        name, key = r.choice([("description", "name"), ("og:description", "property"), ("twitter:description", "name"), ("dc:description", "name"), ("dcterm:description", "name")])
        head = [El("meta", {key: name, "content": h.doc.ch[m - 1]})]
        out.append(finish(h.doc, page(h.doc, kids, head=head), {"thr": r.choice([1, 2000])}, cmp=("outcome", "excerpt"), mex=[m]))
    return out


# -- C27 ------------------------------------------------------------------------------
TWORDS = "a of the new city river Storm election market 2024 council Minister protests football championship extraordinary x9 un_der NASA it".split()
OWORDS = "by with weather Update live report analysis exclusive photographs b 77 q another".split()


def wsplit(s):
    return [w for w in re.split(r"\W+", s.lower(), flags=re.A) if w]


def share(title, words):
    j = lambda q: sum(map(len, q)) + max(0, len(q) - 1)
    return 4 * j([w for w in words if w not in title]) - j(words)


def headline(h, r, title, words, mode=None):
    """A heading's text: of words of the title, of others, or of a mixture about a quarter of which is new."""
    mode = mode or r.choice(["same", "near", "near", "near", "other", "part"])
    sep = lambda: r.choice([" ", " ", " ", ", ", "-", ": ", " é ", "/", " | ", ". ", "'"])
    mark = "k%dq" % (len(h.doc.ch) + 1)
    best = None
    for _ in range(1 if mode != "near" else 25):
        if mode == "same":
            q = list(words) + r.choice([[], [], [r.choice(words)], words[:1]])
        elif mode == "part":
            q = r.sample(words, r.randint(1, len(words)))
        elif mode == "other":
            q = r.sample(OWORDS, r.choice([1, 3, 5]))
        else:
            q = [r.choice(words) for _ in range(r.choice([2, 4, 6, 9]))] + r.sample(OWORDS, r.choice([0, 1, 1, 2, 3]))
            r.shuffle(q)
        if r.random() < .3:
            q = [w.upper() if r.random() < .5 else w.capitalize() for w in q]
        s = q[0]
        for w in q[1:]:
            s += sep() + w
        d = abs(share(title, [mark] + wsplit(s)))
        if best is None or d < best[0]:
            best = (d, s)
        if mode == "near" and d == 0 and r.random() < .5:
            break
    return h.doc.chunk(0, text=best[1])


def headings(ck, n):
    out = []
    c = cfg(blank=.2, names=.15, **PLAIN)
    for i in range(n):
        r = ck.rng("headings", i)
        h = Host(r, c, 400)
        words = r.sample(TWORDS, r.choice([3, 5, 8]))
        while len(" ".join(words)) < 15:
            words.append(r.choice(TWORDS))
        meta = r.random() < .3
        head, kw = [], {}
        if meta:
            m = h.doc.chunk(0, text=" ".join(words))
            head = [El("meta", {r.choice(["property", "property", "name"]): r.choice(["og:title", "twitter:title", "dc:title"]), "content": h.doc.ch[m - 1]})]
            title = wsplit(h.doc.ch[m - 1])
            kw["title"] = title
            if r.random() < .5:
                words = words + [h.doc.ch[m - 1].split()[0]]
        else:
            title = ["k1q"] + [w.lower() for w in words]
            # the title's chunk comes first
            first = h.doc.chunk(0, text=" ".join(words))
            assert first == 1
            if r.random() < .5:
                words = words + ["k1q"]
        gs = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            g = r.choice(["h1", "h1", "h2", "h2", "h2", "h3", "p", "div"])
            a = h.mark()
            k = r.random()
            if k < .08:
                a[r.choice(["hidden"])] = ""
            elif k < .16:
                a["class"] = r.choice(["sidebar", "byline", "headline", "title", "header"])
            elif k < .2:
                a["role"] = r.choice(["heading", "alert"])
            t = Tx(headline(h, r, title, words))
            k = r.random()
            if k < .12:
                kids = [El(r.choice(["a", "span", "b"]), {"href": "foo.html"}, [t])]
            elif k < .25:
                kids = [t, r.choice([lambda: Tx(SP), lambda: El("br"), lambda: Tx(NL), lambda: Tx(NB)])(), El("small", None, [Tx(headline(h, r, title, words))])]
            elif k < .3:
                kids = [El("b", None, [t]), El("i", None, [Tx(headline(h, r, title, words))])]        # the words at the joint are one
            elif k < .33:
                kids = []
            else:
                kids = [t]
            e = El(g, a, kids)
            if r.random() < .25:
                e = El(r.choice(["header", "div", "section", "a", "blockquote"]), dict(h.mark(), **({"class": r.choice(["comment", "foo"])} if r.random() < .2 else {})), [e] + ([h.text()] if r.random() < .4 else []))
            gs.append(e)
        kids = h.article(gs)
        if r.random() < .3:
            kids.insert(0, El(r.choice(["h1", "h2"]), h.mark(), [Tx(headline(h, r, title, words))]))
        if meta:
            root = page(h.doc, kids, head=head)
        else:
            root = El("html", {"lang": "en"} if r.random() < .3 else None, [El("head", None, [El("title", None, [Tx(1)])]), El("body", None, kids)])
        out.append(finish(h.doc, root, {"thr": r.choice([1, 1, 1, 500, 3000])}, cmp=FULL, **kw))
    return out


# -- C28 ------------------------------------------------------------------------------
FTAGS = ["div", "section", "p", "ul", "table", "a", "span", "b", "article", "header", "nav", "form", "figure", "h2", "h3", "blockquote", "pre", "td", "li", "main", "center", "img", "video", "dl", "i"]


def furniture_el(h, r, g, names):
    a = h.mark()
    for k, v in names:
        a[k] = v
    if g == "a":
        a["href"] = "foo.html"
    if g == "img":
        a["src"] = "a.jpg"
        return El("p", h.mark(), [h.text(), El("img", a)])
    if g == "video":
        a["src"] = "//www.youtube.com/v.mp4"
    body = [h.text()] if r.random() < .5 else [h.para(90)]
    if g == "ul":
        body = [El("li", None, body)]
    elif g == "table":
        body = [El("tr", None, [El("td", None, body), El("td", None, [h.text()])])]
    e = El(g, a, body)
    if g == "td":
        e = El("table", None, [El("tr", None, [e, El("td", None, [h.text()])])])
    elif g == "li":
        e = El("ul", None, [e, El("li", None, [h.text()])])
    elif g in ("a", "span", "b", "i") and r.random() < .6:
        e = El("p", h.mark(), [h.text(), e, h.text()])
    if r.random() < .2:           # within a table or code, if not too deep
        for _ in range(r.choice([0, 1, 2, 3, 3, 4])):
            e = El(r.choice(["div", "section", "center"]), h.mark(), [e])
        e = El("code", h.mark(), [e]) if r.random() < .5 else El("table", None, [El("tr", None, [El("td", None, [e]), El("td", None, [h.text()])])])
    return e


def furniture(ck, n):
    out = []
    c = cfg(blank=.1, names=0, **PLAIN)
    near = [w[:-1] for w in UNLIKELY] + [w[1:] for w in UNLIKELY] + ["ad", "ad-", "-ad", "ads", "comm", "head", "page", "rel", "side", "pop", "soc", "foot", "bread", "legend", "reply", "cover", "break", "yom"]
    todo = [(g, u) for g in FTAGS for u in UNLIKELY] if not ck.quick() else []
    R = ck.rng("grid")
    for u in UNLIKELY:
        for _ in range(4):
            todo.append((R.choice(FTAGS), u))
    for u in MAYBE:
        for _ in range(5):
            todo.append((R.choice(FTAGS), (u, R.choice(UNLIKELY))))
    for _ in range(n):
        todo.append((R.choice(FTAGS), R.choice([R.choice(UNLIKELY), R.choice(UNLIKELY), R.choice(near), (R.choice(MAYBE), R.choice(UNLIKELY)), R.choice(NEUTRAL)])))
    R.shuffle(todo)
    for i in range(0, len(todo), 3):
        r = ck.rng("furniture", i)
        h = Host(r, c, 400)
        gs = []
        for g, u in todo[i:i + 3]:
            k = r.choice(["class", "class", "id"])
            if isinstance(u, tuple):
                k2 = "id" if k == "class" and r.random() < .5 else k
                names = [(k, u[1] + r.choice([" ", "-", ""]) + u[0])] if k2 == k else [(k, u[1]), (k2, u[0])]
            else:
                names = [(k, r.choice([u, u, u, u.upper(), "x" + u, u + "s", "foo " + u, u + " bar", "my-%s-box" % u, u.capitalize()]))]
            e = furniture_el(h, r, g, names)
            gs += [e] if r.random() < .7 else h.nest([e], 1)
        kids = h.article(gs, paras=r.choice([2, 4]))
        if r.random() < .15:
            kids = [El("div", dict(h.mark(), **{"class": r.choice(UNLIKELY + MAYBE)}), kids)]
        out.append(h.case(opts={"thr": r.choice([1, 1, 1, 300, 3000])}, kids=kids, cmp=FULL))
    return out


# -- C29 ------------------------------------------------------------------------------
HOSTS = ["dailymotion.com", "youtube.com", "youtube-nocookie.com", "player.vimeo.com", "v.qq.com", "archive.org", "upload.wikimedia.org", "player.twitch.tv"]
NOHOSTS = ["vimeo.com", "qq.com", "wikimedia.org", "twitch.tv", "dailymotion.org", "youtubes.com", "youtubexcom", "youtube.co", "youtube.org", "archive.com", "player-vimeo.com", "player.vimeo.org",
           "youtube-cookie.com", "v.qq.org", "player.twitch.com", "upload-wikimedia.org", "uploads.wikimedia.org", "ads.example", "x.example", "my.archive.org", "m.youtube.com"]
CUSTOM = [["ads.example"], ["x.example", "ads."], ["//ads.example/p", "youtube.com/e"], []]


def address(r):
    h = r.choice(HOSTS) if r.random() < .45 else r.choice(NOHOSTS)
    v = r.choice(["//", "//", "//www.", "//www.", "http://", "https://", "https://www.", "//www3.", "//WWW.", "/", "", "www.", "http:", "//www.www.", "x.html?u=//", "//w.", "///"]) + h + \
        r.choice(["", "/", "/embed/x", "/e?x=1&y=2", "x", ":80/"])
    return r.choice([v, v, v, v.upper(), v.title(), " " + v])


def player(h, r, d=0):
    """An iframe, embed or object, with an address in any attribute or, of an object, anywhere within."""
    g = r.choice(["iframe", "iframe", "embed", "object", "object"])
    items = [("data-n", h.mark()["data-n"])]
    for k in r.sample(["src", "src", "data", "title", "data-x", "name", "class", "id", "value", "longdesc"], r.choice([1, 1, 2, 3])):
        items.append((k, address(r) if k != "class" and (k != "id" or r.random() < .3) else r.choice(["foo", "player", "c1"])))
    items = list(dict(items).items())
    if g == "object" and r.random() < .7:
        items = [x for x in items if x[0] in ("data-n", "class", "id")] or items[:1]
    r.shuffle(items)
    if g == "embed":
        return El("embed", items)
    if g == "iframe":
        return El("iframe", items, [])
    kids = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        kids.append(r.choice([lambda: El("param", {"name": "movie", "value": address(r)}), lambda: El("param", {"value": "x", address(r)[:0] + "data-u": address(r)}),
                              lambda: El("embed", {"src": address(r)}), lambda: El("b", h.mark(), [El("i", {"title": address(r)}, [h.text()])]), lambda: h.text(),
                              lambda: El("iframe", {"src": address(r)}, []), lambda: player(h, r, d + 1) if d < 2 else h.text(),
                              lambda: El("img", {"src": "a.jpg", "alt": address(r)})])())
    return El("object", items, kids)


def player_el(h, r):
    k = r.random()
    p = player(h, r)
    if k < .25:       # alone in a paragraph
        return [El("p", h.mark(), [p] if r.random() < .7 else [Tx(SP), p, Tx(NL)])]
    if k < .45:
        return [El("p", h.mark(), [h.text(), p, h.text()])]
    if k < .6:        # in a block that would go
        return [El(r.choice(["div", "ul", "form", "table", "fieldset", "section"]), dict(h.mark(), **({"class": "player"} if r.random() < .3 else {})),
                   [El("a", {"href": "foo.html"}, [h.text()]), p] + ([player(h, r)] if r.random() < .4 else []))]
    if k < .7:
        return [El("figure", h.mark(), [p, El("figcaption", None, [h.text()])])]
    if k < .8:
        return [El("div", h.mark(), [p, El("video", {"src": "v.mp4", "title": address(r)}, []), El("a", {"href": address(r).strip()}, [h.text()])])]
    return [p]


def players(ck, n):
    c = cfg(lengths=[5, 10, 20, 40, 74, 75, 76], blank=.1, names=.1, **PLAIN)
    return hosted(ck, 4 * n, "player", player_el, conf=c, cmp=FULL + ("players",), thr=(1, 1, 1, 300, 500, 3000),
                  opts=lambda r: {"vid": r.choice(CUSTOM)} if r.random() < .3 else {}) + \
        wild(ck, n, "wild", cfg(junk=["iframe", "object", "embed"], block=dict(BASE["block"], junk=25), vid=.4, budget=500), cmp=FULL + ("players",))


# -- C30 ------------------------------------------------------------------------------
SHARES = ["share", "share", "share", "sharedaddy", "SHARE", "Share", "x_share", "share_y", "my-share-box", "share-1", "foo share", "share foo", "x.share", "_share_", "sharedaddy_x", "a:share", "share/b"]
NOSHARES = ["shared", "shareable", "reshare", "share1", "1share", "shar", "sharedaddys", "xsharedaddy", "shares", "sharesharedaddy", "hare", "shared-x", "x_shared"]
SLEN = [3, 20, 100, 300, 498, 499, 500, 501, 502, 600]


def widget_el(h, r, d=0):
    g = r.choice(["p", "p", "section", "span", "ol", "blockquote", "div", "div", "ul", "a", "b", "article", "header", "h2", "h3", "pre", "table", "figure", "dl"])
    a = h.mark()
    nm = r.choice(SHARES) if r.random() < .7 else r.choice(NOSHARES)
    k = r.random()
    if k < .6:
        a["class"] = nm
    elif k < .85:
        a["id"] = nm
    else:
        a["class"], a["id"] = r.choice([(nm, "foo"), ("foo", nm), ("sha", "re"), ("content", nm), (nm, "content")])
    if g == "a":
        a["href"] = "foo.html"
    n = r.choice(SLEN)
    T = lambda m, **kw: Tx(h.doc.chunk(max(1, m), commas=r.choice([0, 1, 10]) if m > 40 else 0, **kw))
    k = r.random()
    if k < .35:
        kids = [T(n)]
    elif k < .5:
        kids = [T(n, multi=r.choice([3, 40]))] if n > 90 else [T(n)]
    elif k < .65:      # blanks count as they stand
        kids = [Tx(SP, NL, h.doc.chunk(max(1, n - 5), commas=2 if n > 60 else 0), SP, SP, NL)] if n > 10 else [T(n)]
    elif k < .85:
        m = n // 2
        kids = [El(r.choice(["b", "span", "em"]), h.mark(), [T(m)]), T(n - m)]
    elif d < 2:
        kids = [T(r.choice([20, 200])), widget_el(h, r, d + 1)] + ([T(30)] if r.random() < .5 else [])
        r.shuffle(kids)
    else:
        kids = []
    if g in ("ul", "ol"):
        kids = [El("li", None, kids)]
    elif g == "dl":
        kids = [El("dd", None, kids)]
    elif g == "table":
        kids = [El("tr", None, [El("td", None, kids), El("td", None, [h.text()])])]
    return El(g, a, kids)


def heading_el(h, r):
    """A heading that is named like junk, or nearly."""
    a = h.mark()
    nm = [r.choice([r.choice(NEGATIVE), r.choice(NEGATIVE), r.choice(NEGATIVE)[1:], r.choice(NEUTRAL), r.choice(POSITIVE)]) for _ in range(2)]
    k = r.random()
    if k < .45:
        a["class"] = nm[0]
    elif k < .7:
        a["id"] = nm[0]
    else:
        a["class"], a["id"] = nm
    if r.random() < .2:
        a["class"] = a.get("class", "") + r.choice([" ", " x "]) + r.choice(POSITIVE + NEGATIVE)
    t = h.text() if r.random() < .7 else El("a", {"href": "foo.html"}, [h.text()])
    return El(r.choice(["h1", "h1", "h2", "h2", "h3", "h4", "p"]), a, [t])


def widgets(ck, n):
    c = cfg(lengths=[5, 10, 20, 40], blank=.1, names=.05, **PLAIN)
    out = []
    for i in range(n):
        r = ck.rng("widgets", i)
        h = Host(r, c, 400)
        gs = []
        for _ in range(r.choice([1, 2, 3])):
            w = widget_el(h, r) if r.random() < .7 else heading_el(h, r)
            gs += [w] if r.random() < .6 else h.nest([w], r.choice([0, 1, 2]))
        kids = h.article(gs, cls=r.choice([None, None, None, "share", "content share"]) , around=False)
        if r.random() < .35:        # next to the article: a part of it in its own right
            w = r.choice([lambda: El("p", dict(h.mark(), **{"class": r.choice(SHARES)}), [Tx(h.doc.chunk(r.choice([81, 90, 120]), commas=1, dot="end"))]),
                          lambda: El("div", dict(h.mark(), **{"class": "content share"}), [h.para(160), widget_el(h, r), h.para(160)]), lambda: widget_el(h, r)])()
            kids.insert(r.choice([0, len(kids)]), w)
        out.append(h.case(opts={"thr": r.choice([1, 1, 1, 500, 3000])}, kids=kids, cmp=FULL))
    return out
