"""C16: readerability."""
from docs import Doc, El, Tx
from gen import page

UNLIKELY = ["-ad-", "ai2html", "banner", "breadcrumbs", "combx", "comment", "community", "cover-wrap", "disqus", "extra", "footer", "gdpr", "header", "legends", "menu",
            "related", "remark", "replies", "rss", "shoutbox", "sidebar", "skyscraper", "social", "sponsor", "supplemental", "ad-break", "agegate", "pagination", "pager",
            "popup", "yom-remote"]
MAYBE = ["and", "article", "body", "column", "content", "main", "shadow"]
PLAIN = ["lead", "x", "fallback-image", "p1", "hero big", "adbreak", "foot", "side-bar"]
STYLES = ["display:none", "visibility:hidden", "display: none ", " display :none;color:red", "color:red;display:none", "display:block", "visibility:visible", "display:nonexistent",
          "xdisplay:none", "display:block;display:none", "opacity:0", "visibility:hidden;display:block", ";;display:none", "display", ""]


class Page:
    def __init__(self, r, minlen):
        self.r, self.doc, self.minlen = r, Doc(r), minlen

    def attrs(self):
        r, a = self.r, {}
        if r.random() < .3:
            a["class"] = " ".join(r.sample(PLAIN + [r.choice(UNLIKELY), r.choice(MAYBE), r.choice(UNLIKELY).upper()], r.choice([1, 1, 2])))
        if r.random() < .15:
            a["id"] = r.choice(PLAIN + UNLIKELY + MAYBE)
        if r.random() < .15:
            a["style"] = r.choice(STYLES)
        if r.random() < .05:
            a["hidden"] = r.choice(["", "hidden", "false"])
        if r.random() < .1:
            a["aria-hidden"] = r.choice(["true", "false", "", "TRUE"])
        if r.random() < .06:          # an image's text is hidden from nobody
            a["aria-hidden"] = r.choice(["true", "true", "true", "false", ""])
            a["class"] = r.choice(["fallback-image", "fallback-image", "x fallback-images", "fallback", "Fallback-Image", "fallback-image sidebar", ""])
        if r.random() < .15:
            a["data-v"] = r.choice(["no", "yes"])
        return a

    def size(self):
        r = self.r
        m = self.minlen
        return max(1, r.choice([m - 1, m, m + 1, m + 4, m + 25, m + 100, m + 101, m + 99, m + 400, m + 401, m + 250, 30, 60, 10, m // 2]))

    def text(self, n=None):
        r = self.r
        n = n or self.size()
        x = [self.doc.chunk(n, commas=r.choice([0, 1]), multi=r.choice([0, 0, 0, 3]), amp=r.choice([0, 0, 1]))]
        if r.random() < .3:
            x = r.choice([[0], [-1], [-2], [0, -1, -2]]) + x
        if r.random() < .3:
            x = x + r.choice([[0], [-1], [-2], [0, 0]])
        return Tx(*x)

    def inline(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random()
            if k < .7:
                out.append(self.text())
            elif k < .9:
                out.append(El(r.choice(["b", "span", "em"]), self.attrs(), [self.text(r.choice([5, 20, self.minlen]))]))
            else:
                out.append(El("br"))
        return out

    def block(self, d):
        r = self.r
        k = r.random()
        if d == 0 or k < .35:
            return El("p", self.attrs(), self.inline())
        if k < .42:
            return El("pre", self.attrs(), [self.text()])
        if k < .55:
            kids = []
            for _ in range(r.choice([1, 2, 3])):
                kids += self.inline() if r.random() < .7 else [self.block(d - 1)]
                kids += r.choice([[], [El("br")], [El("br"), El("br")]])
            return El("div", self.attrs(), kids)
        if k < .67:
            return El("article", self.attrs(), [self.block(d - 1) for _ in range(r.choice([1, 2]))])
        if k < .8:
            return El(r.choice(["ul", "ol"]), self.attrs(), [El("li", self.attrs(), r.choice([lambda: self.inline(), lambda: [self.block(d - 1)], lambda: [El("div", self.attrs(), [self.block(d - 1)])]])())
                                                             for _ in range(r.choice([1, 2]))])
        return El(r.choice(["div", "section", "blockquote", "main", "div"]), self.attrs(), [self.block(d - 1) for _ in range(r.choice([1, 2, 3]))])


def cases(ck, n):
    out = []
    for i in range(n):
        r = ck.rng("rd", i)
        minlen = r.choice([None, None, None, None, 140, 0, 1, 20, 50, 139, 141, 200, 250, 300, 500, -5])
        minsc = r.choice([None, None, None, 20000, 0, 1000, 5000, 10000, 19999, 30000, 2500, 20001, -1000, 40000, 60000])
        ml, ms = 140 if minlen is None else minlen, 20000 if minsc is None else minsc
        p = Page(r, ml)
        if r.random() < .35:
            # at the edge: squares that add up to the minimum, or nearly
            root = ms // 1000
            parts = []
            while root > 0 and len(parts) < 4:
                a = min(root, r.choice([1, 2, 5, 10, 20])) if len(parts) < 3 else root
                parts.append(a)
                root -= a
            kids = []
            for j, a in enumerate(parts):
                n2 = ml + a * a + (r.choice([0, 0, 1, -1]) if j == len(parts) - 1 else 0)
                if n2 > 2100:
                    n2 = 2000
                kids.append(r.choice([lambda: El("p", {}, [p.text(n2)]), lambda: El("p", {"aria-hidden": r.choice(["true", "false", ""]), "class": r.choice(["fallback-image", "x fallback-image2"])}, [p.text(n2)]), lambda: El("pre", {}, [p.text(n2)]), lambda: El("div", {}, [p.text(n2), El("br")]),
                                      lambda: El("div", {}, [El("article", {}, [p.text(n2)])])])())
            # and blocks that must not count
            for _ in range(r.choice([0, 1, 2])):
                t = p.text(ml + 50)
                kids.insert(r.randrange(len(kids) + 1), r.choice([
                    lambda: El("ul", {}, [El("li", {}, [El("p", {}, [t])])]), lambda: El("div", {}, [t]), lambda: El("p", {"class": r.choice(UNLIKELY)}, [t]),
                    lambda: El("p", {"id": r.choice(UNLIKELY)}, [t]), lambda: El("div", {}, [El("span", {}, [El("br"), t])]), lambda: El("section", {}, [t, El("br")]),
                    lambda: El("p", {"hidden": ""}, [t]), lambda: El("p", {"style": "display:none"}, [t]), lambda: El("p", {"aria-hidden": "true"}, [t]),
                    lambda: El("p", {"aria-hidden": "true", "class": r.choice(["lead", "fallback", "Fallback-Image", "image-fallback"])}, [t]),
                    lambda: El("h2", {}, [t]), lambda: El("ul", {}, [El("li", {}, [t])]), lambda: El("p", {}, [p.text(max(1, ml - 1))])])())
        else:
            kids = [p.block(r.choice([0, 1, 2, 3])) for _ in range(r.choice([0, 1, 2, 3, 5]))]
        root = page(p.doc, kids)
        vis = r.choice(["default"] * 6 + ["all", "none", "attr", "not"])
        arena, tab = p.doc.arena(root), p.doc.table()
        spec = {"T": arena, "ch": tab, "minlen": ml, "minsc": ms, "vis": vis}
        args = {"html": p.doc.page(root, r.random() < .7), "vis": vis, "minlen": ([] if minlen is None else r.choice([[], [7]]) + [ml]),
                "minscore": ([] if minsc is None else r.choice([[], [3]]) + [ms / 1000]), "opts": r.choice([{}, {}, {"thr": 1, "keep": True, "max": 1, "ntop": 1}])}
        out.append((spec, args))
    return out


def run(ck):
    cs = cases(ck, ck.n(14000, 120000))
    obs = ck.observe("readerable", [a for _, a in cs])
    specs = [dict(s, obs={"out": o["out"]}) for (s, _), o in zip(cs, obs)]
    seen, kinds = 0, {}
    for line in ck.judge("Readerable", specs):
        w = line.split(" ", 2)
        if w[0] in ("GOOD", "BAD", "AMB"):
            seen += 1
            k = w[2].split(" ")[0]
            kinds[k] = kinds.get(k, 0) + 1
            ck.traces += w[0] != "AMB"
        if w[0] == "BAD":
            i = int(w[1]) - 1
            ck.violation("the verdict should be " + w[2].split(" ")[0], "readerable", cs[i][1], obs[i], w[2], specs[i], "Readerable")
    if seen != len(specs):
        raise RuntimeError("%d of %d cases without a verdict" % (len(specs) - seen, len(specs)))
    ck.evals += seen
    ck.extra["verdicts"] = kinds
    ck.sample({"html": cs[0][1]["html"], "args": {k: v for k, v in cs[0][1].items() if k != "html"}})
