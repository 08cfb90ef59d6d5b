"""Random generation of abstract pages: every choice comes from a configuration,
so that a family can restrict itself to what its property is about."""
import copy, random, re
from docs import Doc, El, Tx, SP, NL, NB

UNLIKELY = ["x-ad-y", "ai2html", "banner", "breadcrumbs", "combx", "comment", "community", "cover-wrap", "disqus", "extra", "footer",
            "gdpr", "header", "legends", "menu", "related", "remark", "replies", "rss", "shoutbox", "sidebar", "skyscraper", "social",
            "sponsor", "supplemental", "ad-break", "agegate", "pagination", "pager", "popup", "yom-remote"]
MAYBE = ["and", "article", "body", "column", "content", "main", "shadow"]
POSITIVE = ["article", "body", "content", "entry", "hentry", "h-entry", "main", "page", "pagination", "post", "text", "blog", "story"]
NEGATIVE = ["x-ad-y", "hidden", "hid", "banner", "combx", "comment", "com-x", "contact", "foot", "footer", "footnote", "gdpr", "masthead",
            "media", "meta", "outbrain", "promo", "related", "scroll", "share", "shoutbox", "sidebar", "skyscraper", "sponsor", "shopping",
            "tags", "tool", "widget"]
NEUTRAL = ["foo", "bar", "baz", "c1", "c2", "qux"]
SHARE = ["share", "sharedaddy", "x_share", "share_y", "my-share-box", "SHARE", "shared", "shareable", "reshare"]
HIDERS = [("style", "display:none"), ("style", "display: none;"), ("style", "color:red;display:none"), ("style", "visibility:hidden"),
          ("style", " visibility : hidden ; "), ("hidden", ""), ("hidden", "hidden"), ("aria-hidden", "true"), ("role", "menu"),
          ("role", "navigation"), ("role", "complementary"), ("role", "alert"), ("role", "alertdialog"), ("role", "dialog"), ("role", "menubar")]
NONHIDERS = [("style", "display:block"), ("style", "display"), ("style", "visibility:visible"), ("style", "xdisplay:none"),
             ("style", "color:none"), ("aria-hidden", "false"), ("aria-hidden", ""), ("role", "main"), ("role", "presentation"),
             ("style", "display:none-x"), ("style", ";;display:inline"), ("aria-modal", "true"), ("style", "content:'x:y'")]
BYLINES = [("class", "byline"), ("class", "author"), ("id", "dateline"), ("class", "writtenby"), ("class", "p-author"),
           ("rel", "author"), ("itemprop", "author"), ("itemprop", "x author y"), ("class", "my-Author-name")]
PHRASING = ["abbr", "b", "bdo", "cite", "code", "data", "datalist", "dfn", "em", "i", "kbd", "label", "mark", "math", "meter", "output",
            "progress", "q", "ruby", "samp", "small", "span", "strong", "sub", "sup", "time", "var", "bdi", "u", "s", "tt", "x-tag"]
# attributes that nothing depends on
ODD = [("target", "_blank"), ("title", "t"), ("rel", "nofollow"), ("rel", "noopener noreferrer"), ("onclick", "f()"), ("tabindex", "0"), ("name", "n"),
       ("type", "t"), ("lang", "de"), ("download", ""), ("itemscope", ""), ("itemprop", "articleBody"), ("itemtype", "http://schema.org/Article"),
       ("data-id", "9"), ("data-href", "q"), ("aria-label", "x"), ("aria-modal", "true"), ("contenteditable", "true"), ("accesskey", "k"), ("draggable", "false"),
       ("property", "p"), ("content", "c"), ("value", "v"), ("cite", "c"), ("datetime", "2001"), ("media", "print"), ("nowrap", ""), ("loading", "eager"),
       ("crossorigin", ""), ("hreflang", "en"), ("ping", "p"), ("xml:lang", "en"), ("open", ""), ("start", "3"), ("data-foo-bar", ""), ("is", "x-y")]
TITLE_WORDS = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot"]
HREFS = ["#frag", "#", "foo.html", "/abs/p", "http://Other.example", "http://other.example/a?b#c", "javascript:void(0)",
         "JavaScript:x()", " javascript:y", "mailto:a@b.c", "../up", "?q=1", "//net.example/x", ""]
IMGVALS = ["a.jpg", "b.png 2x", "img/c.webp", "d.gif", "a.jpg 1x, b.jpg 2x", "data:image/gif;base64,R0lGOD", "null",
           "data:image/svg+xml;base64,PHN2", "x y.jpg z", "u.jpeg?x=1", "B64:131", "B64:132", "B64:133", "B64:134"]
EMBEDS = ["//www.youtube.com/x", "http://player.vimeo.com/v", "http://ads.example/y", "http://WWW.YouTube.com/e",
          "https://archive.org/z", "//youtube.com.evil", "//myyoutube.com", "//www.dailymotion.com/v", "//youtube-nocookie.com/",
          "https://v.qq.com/x", "//upload.wikimedia.org/f", "//player.twitch.tv/?c", "//vimeo.com/1", "//wikimedia.org/x"]

BASE = dict(
    budget=900,
    lengths=[5, 8, 12, 20, 24, 25, 26, 30, 40, 60, 79, 80, 81, 99, 100, 101, 120, 150, 200, 210, 300],
    commas=[0, 0, 0, 1, 2, 3, 5, 10, 12], wide=[0, 0, 0, 1, 2], dots=["", "", "end", "mid", "glued"], multi=[0, 0, 0, 3], amp=[0, 0, 0, 1],
    blank=0.35,
    # attributes
    names=0.45, ids=0.3, odd=0.15, hide=0.08, nonhide=0.1, byline=0.05, dir=0.05, pres=0.1,
    pools=[UNLIKELY, MAYBE, POSITIVE, NEGATIVE, NEUTRAL, NEUTRAL, SHARE, ["page", "keepme"], ["lazy", "fallback-image"]],
    hrefs=HREFS, imgvals=IMGVALS,
    # content
    inline=dict(text=45, fmt=15, link=15, br=12, img=8, delins=5),
    block=dict(p=38, div=34, h=6, list=6, table=7, figure=3, pre=3, misc=3, junk=12, inline=15),
    divs=["div", "div", "div", "section", "article", "blockquote", "main", "center", "header"],
    junk=["script", "style", "noscript", "input", "button", "select", "textarea", "iframe", "object", "embed", "footer", "aside",
          "link", "form", "fieldset", "svg", "nav", "header", "video", "audio", "h1"],
    misc=["dl", "td", "address", "form", "fieldset", "figure", "picture"],
    tops=[1, 2, 3, 4], kids=[1, 1, 2, 2, 3, 4], depth=3, brrun=0.15,
    # options
    thr=[0, 1, 30, 60, 100, 150, 200, 300, 500], ntop=0.2, keep=0.2, preserve=0.3, vid=0.15, body=0.2, lang=0.5,
)


def cfg(**kw):
    """A configuration: the base one with the given entries replaced (weight tables are replaced whole)."""
    d = copy.deepcopy(BASE)
    for k in kw:
        assert k in d, k
    d.update(kw)
    return d


def page(doc, body_kids, title=None, html_attrs=None, body_attrs=None, head=()):
    """html element around a body; the title defaults to six known words."""
    t = doc.chunk(0, text=" ".join(title if title is not None else TITLE_WORDS))
    return El("html", html_attrs, [El("head", None, [El("title", None, [Tx(t)])] + list(head)), El("body", body_attrs, body_kids)])


def finish(doc, root, opts=None, uri="http://host.example/dir/page.html", base="", cmp=("outcome", "tree", "text"), **kw):
    """The case for the specification and the arguments for the harness."""
    o = dict(thr=500, ntop=5, keep=False, pres=[], max=0, vid="default")
    o.update(opts or {})
    arena = doc.arena(root)
    body = next(i + 1 for i, n in enumerate(arena) if n["g"] == "body")
    tab = doc.table()
    # the title comes from the title element, whose first chunk starts with its marker
    title_tok = next(n["x"][0] for n in arena if n["p"] and arena[n["p"] - 1]["g"] == "title" and n["g"] == "")
    spec = {"doc": arena, "body": body, "ch": tab, "title": tab[title_tok - 1]["ws"], "uri": uri, "base": base,
            "thr": o["thr"], "ntop": o["ntop"], "keep": o["keep"], "pres": o["pres"], "max": o["max"],
            "vid": ["default"] if o["vid"] == "default" else list(o["vid"]), "cmp": list(cmp)}
    spec.update(kw)
    hopts = {}
    if "thr" in (opts or {}):
        hopts["thr"] = o["thr"]
    if "ntop" in (opts or {}):
        hopts["ntop"] = o["ntop"]
    if "keep" in (opts or {}):
        hopts["keep"] = o["keep"]
    if o["pres"]:
        hopts["pres"] = o["pres"]
    if "max" in (opts or {}):
        hopts["max"] = o["max"]
    if o["vid"] != "default":
        hopts["vid"] = "(?i)" + "|".join(re.escape(v) for v in o["vid"]) if o["vid"] else ""
    if hopts and doc.rng.random() < .3:
        hopts["mix"] = doc.rng.randint(1, 10 ** 6)
    # the html tags may be left out; a second html element is none of the page
    spec["bare"] = not root.a and doc.rng.random() < .12
    html = doc.page(root) if not spec["bare"] else "".join(doc.render(k) for k in root.k)
    if not spec["bare"] and doc.rng.random() < .06:
        html += doc.rng.choice(["<html></html>", "<html lang=\"xx\"><p>stray</p></html>", " \n", "<!-- end -->"])
    args = {"html": html, "uri": uri, "opts": hopts}
    return {"spec": spec, "args": args, "doc": doc}


class Wild:
    """A random page."""

    def __init__(self, rng, conf=None, budget=None):
        self.r, self.doc, self.c = rng, Doc(rng), conf or BASE
        self.left = budget or self.c["budget"]
        self.n = 0

    def pick(self, table):
        ks = [k for k in table if table[k] > 0]
        return self.r.choices(ks, [table[k] for k in ks])[0]

    def p(self, k):
        return self.r.random() < self.c[k]

    # -- text ------------------------------------------------------------------
    def length(self):
        n = min(self.r.choice(self.c["lengths"]), max(self.left, 5))
        self.left -= n
        return n

    def chunk(self, n=None):
        r, c = self.r, self.c
        n = n or self.length()
        k = r.choice(c["commas"]) if n > 40 else r.choice(c["commas"][:2] + [0, 1 if any(c["commas"]) else 0])
        return self.doc.chunk(n, commas=k, wide=r.choice(c["wide"]), dot=r.choice(c["dots"]), multi=r.choice(c["multi"]), amp=r.choice(c["amp"]))

    def blank(self):
        return self.r.choice([[SP], [NL], [NL, SP, SP], [SP, SP], [NB], [SP, NB, SP]])

    def text(self):
        x, b = [self.chunk()], self.c["blank"]
        if self.r.random() < .3 and b:
            x = self.blank() + x
        if self.r.random() < .3 and b:
            x = x + self.blank()
        if self.r.random() < .15 and self.left > 0:
            x = x + (self.blank() if b else [SP]) + [self.chunk()]
        return Tx(*x)

    # -- attributes --------------------------------------------------------------
    def names(self):
        r = self.r
        s = r.choice(r.choice(self.c["pools"]))
        if r.random() < .25:
            s += r.choice([" ", "  ", "-"]) + r.choice(r.choice(self.c["pools"]))
        if r.random() < .1:
            s = s.upper()
        if r.random() < .05:
            s = " " + s + " "
        return s

    def mark(self):
        self.n += 1
        a = {"data-n": str(self.n)}
        if self.p("odd"):
            for k, v in self.r.sample(ODD, self.r.choice([1, 1, 2, 4])):
                a[k] = v
        if self.r.random() < .1:
            a = dict(reversed(list(a.items())))
        return a

    def attrs(self, g=""):
        r, a = self.r, self.mark()
        if self.p("names"):
            if r.random() < .6:
                a["class"] = self.names()
            if self.p("ids"):
                a["id"] = self.names()
        if self.p("hide"):
            k, v = r.choice(HIDERS)
            a[k] = v
            if r.random() < .2:
                a["class"] = "x fallback-image"
            if v == "dialog":
                a["aria-modal"] = r.choice(["true", "false"])
        elif self.p("nonhide"):
            k, v = r.choice(NONHIDERS)
            a[k] = v
        if self.p("byline"):
            k, v = r.choice(BYLINES)
            a[k] = v
        if self.p("dir"):
            a["dir"] = r.choice(["rtl", "ltr", "auto", ""])
        if self.p("pres"):
            a[r.choice(["align", "width", "height", "border", "bgcolor", "valign", "title", "lang", "frame", "style", "background",
                        "cellpadding", "cellspacing", "hspace", "vspace", "rules"])] = r.choice(["x", "10", "left"])
        return a

    # -- inline content ------------------------------------------------------------
    def img(self):
        r, a = self.r, self.mark()
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.choice(["src", "srcset", "data-src", "data-srcset", "data-x", "alt", "class", "data-lazy"])
            v = {"alt": "pic.jpg", "class": r.choice(["lazy", "foo", "img-Lazyload"])}.get(k) or r.choice(self.c["imgvals"])
            if v.startswith("B64:"):
                v = "data:image/png;base64," + "A" * int(v[4:])
            a[k] = v
        return El("img", a)

    def inline(self, d=0):
        r = self.r
        k = "text" if d > 2 else self.pick(self.c["inline"])
        if k == "text":
            return self.text()
        if k == "fmt":
            return El(r.choice(["b", "em", "span", "i", "strong", "code", "font", "abbr"]) if r.random() < .7 else r.choice(PHRASING), self.attrs(), self.inlines(d + 1))
        if k == "link":
            a = self.attrs()
            a["href"] = r.choice(self.c["hrefs"])
            return El("a", a, self.inlines(d + 1))
        if k == "br":
            return El("br", {} if r.random() < .7 else {"class": "foo"})
        if k == "img":
            return self.img()
        return El(r.choice(["del", "ins", "a"]), self.attrs(), self.inlines(d + 1) if r.random() < .7 else [self.block(self.c["depth"])])

    def inlines(self, d=0):
        out = []
        for _ in range(self.r.choice([1, 1, 1, 2, 3, 4])):
            if self.p("blank"):
                out.append(Tx(*self.blank()))
            if self.left <= 0 and self.r.random() < .7:
                continue
            out.append(self.inline(d))
            if self.p("brrun"):
                out += [El("br")] + ([Tx(*self.blank())] if self.r.random() < .5 else []) + [El("br")]
        return out

    # -- blocks ----------------------------------------------------------------------
    def junk(self, g=None):
        r = self.r
        g = g or r.choice(self.c["junk"])
        a = self.attrs(g)
        if g in ("iframe", "object", "embed"):
            a[r.choice(["src", "data", "title"])] = r.choice(EMBEDS)
        if g in ("input", "embed", "link"):
            return El(g, a)
        if g == "iframe":
            return El(g, a, [])
        if g in ("script", "style", "textarea"):
            return El(g, a, [Tx(self.doc.chunk(10))])
        if g == "noscript":
            return El(g, a, [self.img()] if r.random() < .7 else [self.text()])
        if g == "object":
            return El(g, a, [El("param", {"name": "movie", "value": r.choice(EMBEDS + ["http://x.example"] * 6)})] +
                      ([El("embed", {"src": r.choice(EMBEDS + ["http://x.example"] * 6)})] if r.random() < .5 else []))
        if g == "svg":
            return El(g, a, [El("path", {"style": "x", "width": "1"})])
        if g in ("video", "audio"):
            a["src"] = "m.mp4"
            return El(g, a, [El("source", {"src": "n.mp4"})])
        if g == "select":
            return El(g, a, [El("option", None, [self.text()])])
        return El(g, a, self.inlines() if r.random() < .6 else self.blocks(self.c["depth"]))

    def table(self, d):
        r = self.r
        a = self.attrs("table")
        if r.random() < .3:
            a[r.choice(["summary", "datatable", "role"])] = r.choice(["0", "presentation", "sum", ""])
        rows, cols = r.choice([(1, 1), (1, 1), (1, 2), (2, 2), (3, 3), (3, 4), (2, 5), (1, 5), (4, 3)])
        trs = []
        for _ in range(rows):
            ra = {"rowspan": r.choice(["2", "10", "x", "0"])} if r.random() < .1 else {}
            cells = []
            for _ in range(cols):
                ca = self.attrs("td") if r.random() < .3 else {}
                if r.random() < .1:
                    ca["colspan"] = r.choice(["2", "5", "x"])
                kids = [] if (self.left <= 0 or rows * cols > 4 and r.random() < .5) else \
                    (self.inlines(2) if r.random() < .7 or d >= self.c["depth"] else self.blocks(d + 1, 1))
                cells.append(El("th" if r.random() < .03 else "td", ca, kids))
            trs.append(El("tr", ra, self.sep(cells)))
        kids = [El("tbody", None, self.sep(trs))] if r.random() < .5 else self.sep(trs)
        if r.random() < .08:
            kids.insert(0, El("caption", None, [self.text()] if r.random() < .6 else []))
        return El("table", a, kids)

    def sep(self, els):
        out = []
        for e in els:
            if self.r.random() < .2:
                out.append(Tx(*self.r.choice([[SP], [NL]])))
            out.append(e)
        return out

    def block(self, d=0):
        r = self.r
        k = self.pick(self.c["block"])
        if k == "inline":
            return self.inline()
        if k == "junk":
            return self.junk()
        if k == "p" or (k in ("div", "table") and d > self.c["depth"]):
            return El("p", self.attrs("p"), self.inlines())
        if k == "div":
            g = r.choice(self.c["divs"])
            return El(g, self.attrs(g), self.blocks(d + 1) if r.random() < .7 else self.inlines())
        if k == "h":
            return El(r.choice(["h1", "h2", "h2", "h3", "h4", "h5", "h6"]), self.attrs("h"), self.inlines(2) if r.random() < .7 else [] if r.random() < .3 else
                      [Tx(self.doc.chunk(0, text=" ".join(r.sample(TITLE_WORDS, r.choice([2, 5, 6])))))])
        if k == "list":
            return El(r.choice(["ul", "ol"]), self.attrs("ul"), self.sep([El("li", self.attrs("li") if r.random() < .2 else {}, self.inlines(1))
                                                                         for _ in range(r.choice([1, 2, 3]))]))
        if k == "table":
            return self.table(d)
        if k == "figure":
            return El("figure", self.attrs("figure"), [self.img()] + ([El("figcaption", None, [self.text()])] if r.random() < .4 else []))
        if k == "pre":
            return El("pre", self.attrs("pre"), [self.text()])
        return El(r.choice(self.c["misc"]), self.attrs("dl"), self.inlines(2))

    def blocks(self, d=0, n=None):
        out = []
        for _ in range(n or self.r.choice(self.c["kids"])):
            if self.left <= 0 and out:
                break
            if self.p("blank"):
                out.append(Tx(*self.blank()))
            out.append(self.block(d))
        if self.p("blank"):
            out.append(Tx(*self.blank()))
        return out

    # -- the case ----------------------------------------------------------------------
    def options(self):
        r, o = self.r, {}
        o["thr"] = r.choice(self.c["thr"])
        if self.p("ntop"):
            o["ntop"] = r.choice([1, 2, 3, 5, 8])
        if self.p("keep"):
            o["keep"] = True
        if self.p("preserve"):
            o["pres"] = r.sample(["keepme", "foo", "c1"], r.choice([1, 2]))
        if self.p("vid"):
            o["vid"] = r.choice([[], ["ads.example"], ["x.example", "ads."]])
        return o

    def case(self, opts=None, kids=None, **kw):
        r = self.r
        kids = kids if kids is not None else self.blocks(0, r.choice(self.c["tops"]))
        ha = {"lang": r.choice(["en", "it-IT", ""])} if self.p("lang") else {}
        if self.p("dir"):
            ha["dir"] = "rtl"
        ba = {"class": r.choice(["sidebar", "content", "foo"])} if self.p("body") else {}
        if self.p("dir"):
            ba["dir"] = "ltr"
        root = page(self.doc, kids, html_attrs=ha, body_attrs=ba)
        o = self.options()
        o.update(opts or {})
        return finish(self.doc, root, o, **kw)
