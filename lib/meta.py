"""C12 and C13: metadata and titles."""
import itertools, json
import docs

LONG = ["Alpha beta, gamma delta, epsilon zeta, eta theta, iota kappa. " * 6, "Lambda mu, nu xi, omicron pi, rho sigma, tau upsilon. " * 8]
ARTICLE = ["Article", "AdvertiserContentArticle", "NewsArticle", "AnalysisNewsArticle", "AskPublicNewsArticle", "BackgroundNewsArticle", "OpinionNewsArticle",
           "ReportageNewsArticle", "ReviewNewsArticle", "Report", "SatiricalArticle", "ScholarlyArticle", "MedicalScholarlyArticle", "SocialMediaPosting",
           "BlogPosting", "LiveBlogPosting", "DiscussionForumPosting", "TechArticle", "APIReference"]
FOREIGN = ["Person", "Product", "WebPage", "Organization", "VideoObject", "BreadcrumbList", "article", "Recipe", "NewsMediaOrganization", "ReportedDoseSchedule", "ArticleX", "XNewsArticle", "Article ", "newsarticle", "BlogPostings", "Blog"]
CTX = ["http://schema.org", "https://schema.org", "http://schema.org/", "https://schema.org/"]
NOCTX = ["http://schema.org/Article", "https://example.org", "schema.org", "http://www.schema.org", "https://schema.orgs", "ftp://schema.org", "", "xhttp://schema.org"]
TYPES = ["application/ld+json"] * 8 + ["application/json", "text/javascript", "application/ld+json;charset=utf-8", ""]


def tagged(v):
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, dict):
        return ["o", [[k, tagged(x)] for k, x in v.items()]]
    if isinstance(v, list):
        return ["a", [tagged(x) for x in v]]
    return ["x"]


class Words:
    def __init__(self, r):
        self.r, self.n = r, 0

    def __call__(self, odd=True):
        r = self.r
        self.n += 1
        s = " ".join([r.choice(["Great", "small", "Matter", "of", "Tea", "and", "rain", "news"]) + (str(self.n) if j == 0 else "") for j in range(r.choice([1, 1, 2, 3, 6]))])
        if odd and r.random() < .3:
            s = s + r.choice([" &amp; x", " &lt;b&gt;", " &quot;q&quot;", " é", " 日本", " & co", " &amp;amp; y", " &bogus; z", " &#38; w", " &#x3e;", " 'a'", ' "b"', " <i>"])
        if r.random() < .15:
            s = r.choice([" ", "\n", "  ", "\u00a0"]) + s + r.choice(["", " ", "\n\t"])
        return s


def name_of(w, r):
    return r.choice([lambda: {"name": w()}] * 5 + [lambda: {"name": 5}, lambda: {"name": ""}, lambda: {}, lambda: {"name": [w()]}, lambda: {"name": None}, lambda: w(), lambda: 7,
                                                  lambda: {"@type": "Person", "name": w()}])()


def ld_object(w, r, title, art=True):
    o = {}
    if r.random() < (.97 if art else .5):
        o["@type"] = r.choice(ARTICLE) if art else r.choice(FOREIGN + [["Article"], 3, None, ""])
    k = r.random()
    if k < .4:
        o["name"] = r.choice([lambda: w(), lambda: w(), lambda: title, lambda: "", lambda: 3, lambda: None, lambda: [w()]])()
    elif k < .6:
        o["headline"] = r.choice([lambda: w(), lambda: w(), lambda: title, lambda: "", lambda: {"x": "y"}])()
    elif k < .9:
        def near():
            t = title.strip().split(" ")
            if r.random() < .6 and len(t) > 3:      # some words of the title, from all to none of them
                t = r.sample(t, r.randint(1, len(t) - 1)) + r.choice([[], [], ["more"]])
            else:
                t = t[:max(1, len(t) - r.choice([0, 0, 1, 2]))] + [r.choice(["", "more", "Extraordinary"])]
            return r.choice(["", "", "", " "]) + " ".join(x for x in t if x) + r.choice(["", "", "", "\n"])
        o["name"] = r.choice([lambda: w(False).strip(), near, near, lambda: w(), lambda: title.strip(), lambda: r.choice([3, None, ["x"]]), lambda: "?!"])()
        o["headline"] = r.choice([lambda: w(False).strip(), near, near, lambda: title.strip(), lambda: r.choice([3, None, {"a": "b"}]), lambda: o["name"]])()
        if r.random() < .3:
            o = dict(reversed(list(o.items())))
        if isinstance(o["name"], str) and isinstance(o["headline"], str) and (o["name"] == "" or o["headline"] == ""):
            o.pop("name")
    if r.random() < .6:
        o["author"] = r.choice([lambda: name_of(w, r)] * 3 + [lambda: [name_of(w, r) for _ in range(r.choice([0, 1, 2, 3]))], lambda: [{"name": w()}, {"name": w()}, name_of(w, r)]])()
    if r.random() < .6:
        o["description"] = r.choice([lambda: w()] * 4 + [lambda: "", lambda: 9, lambda: [w()], lambda: {"name": w()}, lambda: "  "])()
    if r.random() < .6:
        o["publisher"] = r.choice([lambda: name_of(w, r)] * 3 + [lambda: [{"name": w()}]])()
    if r.random() < .6:
        o["datePublished"] = r.choice(["2020-01-02", "2021-03-04T05:06:07Z", " 2022 ", "", 2023, None, ["2024"]])
    if r.random() < .3:
        o[r.choice(["mainEntity", "image", "@id"])] = r.choice([{"@type": "Article", "name": "wrong"}, "x", 1])
    return o


def ld_script(w, r, title):
    t = r.choice(TYPES)
    k = r.random()
    if k < .55:
        o = ld_object(w, r, title)
        o["@context"] = r.choice(CTX)
    elif k < .65:
        o = ld_object(w, r, title)
        c = r.choice(NOCTX + [None, 4, ["http://schema.org"], {"@vocab": "http://schema.org"}, "-"])
        if c != "-":
            o["@context"] = c
    elif k < .73:
        o = ld_object(w, r, title, False)
        o["@context"] = r.choice(CTX)
    elif k < .9:
        g = [r.choice([lambda: ld_object(w, r, title), lambda: ld_object(w, r, title), lambda: ld_object(w, r, title, False), lambda: "x", lambda: {"@type": ["Article"]}, lambda: None])()
             for _ in range(r.choice([0, 1, 2, 3]))]
        o = {"@context": r.choice(CTX + NOCTX[:1]), "@graph": r.choice([g, g, g, g, {"a": "b"}, "x"])}
        if r.random() < .3:
            o["@type"] = r.choice(["Article", "WebPage"])
            if r.random() < .5:
                o["name"] = w()
    else:
        o = r.choice([[{"@context": CTX[0], "@type": "Article", "name": "listed"}], "x", 3, None, []])
    src = json.dumps(o, ensure_ascii=r.random() < .3, indent=r.choice([None, None, 1]))
    # a reference in the source is a reference in the value in either way of writing it
    src = src.replace("&", "\\u0026")
    k = r.random()
    if k < .08:
        bad = r.choice([src[:-1], src + "}", "{'@context': 'http://schema.org'}", "", "// x\n" + src, "{,}", "null null"])
        return {"type": t, "json": ["bad"]}, t, bad
    if k < .2:
        src = "\n<![CDATA[" + src + "]]>\n"
    elif k < .25:
        src = "<![CDATA[" + src + "]]>"
    elif k < .3:
        src = " \n" + src + "\n "
    return {"type": t, "json": tagged(o)}, t, src


PKEYS = [p + ":" + n for p in ("article", "dc", "dcterm", "og", "twitter") for n in ("author", "creator", "description", "published_time", "title", "site_name")]
NKEYS = [p + s + n for p in ("dc", "dcterm", "og", "twitter", "weibo:article", "weibo:webpage") for s in ".:" for n in ("author", "creator", "description", "title", "site_name")] + \
        ["author", "creator", "description", "title", "site_name"] * 3
COMMON = ["dc:title", "dcterm:title", "og:title", "twitter:title", "dc:creator", "dcterm:creator", "og:description", "dc:description", "dcterm:description", "og:site_name",
          "article:published_time", "twitter:description"]
ODD = ["keywords", "og:image", "viewport", "titles", "og title", "xog:title", "og:titlex", "dc.", "foo:title", "article:tag", "weibo:title", "og:video:title", "dc-title"]


def cased(r, s):
    return r.choice([s, s, s, s.upper(), s.title()])


def meta_tag(w, r):
    m = {"name": "", "property": "", "content": r.choice([lambda: w()] * 9 + [lambda: ""])()}
    k = r.random()
    if k < .4:
        m["property"] = cased(r, r.choice(COMMON + PKEYS))
    elif k < .8:
        m["name"] = cased(r, r.choice(NKEYS))
    elif k < .87:
        m["property"], m["name"] = r.choice(PKEYS + ODD), r.choice(NKEYS + ODD)
    elif k < .94:
        m[r.choice(["name", "property"])] = r.choice(ODD)
    else:
        p, n = r.choice(["og", "dc", "twitter"]), r.choice(["title", "description"])
        m[r.choice(["name", "property"])] = r.choice([" %s : %s ", "%s :%s", " %s:%s", "%s: %s"]) % (p, n)
    if r.random() < .05 and m["property"]:
        m["property"] = r.choice(["x ", "fb:app_id "]) + m["property"] + r.choice(["", " og:image"])
    return m


def title_text(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 8])
    ws = [r.choice(["One", "two", "Three", "four", "x-y", "a/b", "Mr:x", "Five", "six", "C++", "é"]) for _ in range(n)]
    out = ""
    for j, x in enumerate(ws):
        out += x
        if j < n - 1:
            out += r.choice([" "] * 6 + [" - ", " | ", " / ", " > ", " » ", " \\ ", ": ", " : ", ":", "- ", " -", "  ", " || ", " – "])
    return r.choice(["", "", "", " "]) + out + r.choice(["", "", "", " "])


def build(r, ld, metas, title, h1, h2, pby, order=None, notitle=False, second=None):
    """The page: head parts in some order, body with the headings and the article."""
    e, q = docs.esc_text, docs.esc_attr
    head = []
    for _, t, s in ld:
        head.append(('<script type="%s">%s</script>' % (t, s)) if t or r.random() < .5 else "<script>%s</script>" % s)
    mtags = []
    for m in metas:
        at = [k for k in ("name", "property") if m[k] or r.random() < .05] + (["content"] if m["content"] or r.random() < .5 else [])
        r.shuffle(at)
        mtags.append("<meta %s/>" % " ".join('%s="%s"' % (k, q(m[k])) for k in at) if at else "<meta/>")
    t = [] if notitle else ["<title>%s</title>" % e(title)]
    if second:
        t.append("<title>%s</title>" % e(second))
    # scripts among themselves and tags among themselves keep their order
    lists, out = [x for x in (head, mtags, t) if x], []
    body = []
    while lists:
        x = r.choice(lists)
        out.append(x.pop(0))
        lists = [y for y in lists if y]
    if r.random() < .15 and mtags == []:
        pass
    hs = ["<h1>%s</h1>" % e(x) for x in h1], ["<h2>%s</h2>" % e(x) for x in h2]
    body = hs[0] + hs[1]
    by = ['<p class="byline">%s</p>' % e(pby)] if pby else []
    art = "<div>%s%s<p>%s</p><p>%s</p></div>"
    if r.random() < .5:
        b = "".join(body) + art % ("".join(by), "", LONG[0], LONG[1])
    else:
        b = art % ("".join(by), "".join(body), LONG[0], LONG[1])
    return "<!DOCTYPE html><html><head>%s</head><body>%s</body></html>" % ("".join(out), b)


def case(r, title, h1=(), h2=(), ld=(), metas=(), nold=None, pby="", cmp=("title",), notitle=False, second=None):
    spec = {"ld": [x[0] for x in ld], "nold": bool(nold), "metas": list(metas), "title": title if not notitle else "", "h1": list(h1), "h2": list(h2),
            "pby": pby.strip(), "first": LONG[0].strip(), "cmp": list(cmp)}
    opts = {} if nold is None else {"nold": nold}
    return spec, {"html": build(r, ld, metas, title, h1, h2, pby, notitle=notitle, second=second), "uri": "http://x.example/", "opts": opts}


ALL = ("title", "byline", "excerpt", "site", "time")


def sources(ck, n):
    out = []
    for i in range(n):
        r = ck.rng("meta", i)
        w = Words(r)
        title = r.choice(["Great Matter of the rain and tea", "A fine title of some length", "News", "One | two three four five six", "Rain",
                          "Ten little boats sail out over the extraordinary harbour wall", "alpha bb ccc dddd eeeee ffffff ggggggg hhhhhhhh"])
        ld = [ld_script(w, r, title) for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3]))]
        metas = [meta_tag(w, r) for _ in range(r.choice([0, 1, 2, 4, 8, 16]))]
        # of several tags of a name the last counts, unless it is blank: not combined
        out.append(case(r, title, h1=["Head"] if r.random() < .3 else [], ld=ld, metas=metas, nold=r.choice([None, None, None, True, False]),
                        pby=r.choice(["", "", "By Someone", "Jo Doe, Staff"]), cmp=ALL))
    return out


POOL = ["rain", "tea", "harbour", "boats", "of", "extraordinary", "little", "sail", "ten", "out", "a", "wall", "winter", "bridge", "lanterns"]


def names(ck, n):
    """Names and headlines of which about a quarter is foreign to the page's title."""
    from families import share, wsplit
    out = []
    for i in range(n):
        r = ck.rng("names", i)
        words = r.sample(POOL, r.choice([3, 5, 7]))
        while len(" ".join(words)) < 15 or len(words) < 3:
            words.append(r.choice(POOL))
        title = " ".join(words)
        others = [x for x in POOL if x not in words] + ["x", "yy", "zzz", "wwww"]

        def near(want):
            best = None
            for _ in range(200):
                q = [r.choice(words) for _ in range(r.choice([2, 3, 5, 8]))] + r.sample(others, r.choice([0, 1, 1, 2]))
                r.shuffle(q)
                if r.random() < .2:
                    q = [x.upper() if r.random() < .5 else x.title() for x in q]
                s = q[0]
                for x in q[1:]:
                    s += r.choice([" ", " ", " ", ", ", " - ", ": ", "/", "  ", " é "]) + x
                d = share(words, wsplit(s))
                if best is None or abs(d - want) < abs(best[0] - want):
                    best = (d, s)
                if best[0] == want:
                    break
            return best[1]
        pick = lambda: r.choice([lambda: near(0), lambda: near(0), lambda: near(1), lambda: near(-1), lambda: near(r.choice([3, -3, 8, -8])),
                                 lambda: " ".join(r.sample(others, 3)), lambda: title])()
        o = {"@context": CTX[0], "@type": r.choice(ARTICLE), "name": pick(), "headline": pick()}
        if r.random() < .6:      # the name is foreign, so that the headline decides
            o["name"] = r.choice([" ".join(r.sample(others, 2)), near(0), near(1), near(-1)])
            o["headline"] = r.choice([near(0), near(0), near(-1), title])
        if r.random() < .3:
            o = dict(reversed(list(o.items())))
        if r.random() < .2:
            o = {"@context": CTX[1], "@graph": [x for x in [r.choice([None, {"@type": ["Article"], "name": "wrong"}, {"@type": "", "name": "wrong"}, {"@type": 5, "name": "wrong"},
                                                                       {"@type": "Person", "name": "wrong"}, {"name": "wrong"}, "x", ["Article"]]), o, {"@type": "Article", "name": "later"}]
                                                 if x is not None or r.random() < .5]}
        ld = [({"type": TYPES[0], "json": tagged(o)}, TYPES[0], json.dumps(o))]
        out.append(case(r, title, ld=ld, cmp=("title",)))
    return out


def ladders(ck):
    """Every level of every ladder of sources, alone and with each lower one."""
    L = {"title": ["ld", "dc:title", "dcterm:title", "og:title", "weibo:article:title", "weibo:webpage:title", "title", "twitter:title", "page"],
         "byline": ["ld", "dc:creator", "dcterm:creator", "author", "page"],
         "excerpt": ["ld", "dc:description", "dcterm:description", "og:description", "weibo:article:description", "weibo:webpage:description", "description", "twitter:description", "page"],
         "site": ["ld", "og:site_name"], "time": ["ld", "article:published_time"]}
    LDF = {"title": lambda v: {"name": v}, "byline": lambda v: {"author": {"name": v}}, "excerpt": lambda v: {"description": v},
           "site": lambda v: {"publisher": {"name": v}}, "time": lambda v: {"datePublished": v}}
    out = []
    for f, steps in L.items():
        sets = [s for k in (0, 1, 2) for s in itertools.combinations(steps, k)] + [tuple(steps[j:]) for j in range(len(steps))]
        for si, s in enumerate(dict.fromkeys(sets)):
            for rev in (False, True):
                for nold in (None, True) if "ld" in s else (None,):
                    r = ck.rng("ladder", f, si, rev, nold)
                    ld, metas = [], []
                    for j, k in enumerate(s):
                        v = "%s %d &amp; co" % (k.replace(":", " "), j)
                        if k == "ld":
                            o = dict({"@context": CTX[0], "@type": r.choice(ARTICLE)}, **LDF[f](v))
                            ld.append(({"type": TYPES[0], "json": tagged(o)}, TYPES[0], json.dumps(o).replace("&", "\\u0026")))
                        elif k != "page":
                            p = k in PKEYS and r.random() < .6 or k == "article:published_time"
                            metas.append({"name": "" if p else k, "property": k if p else "", "content": v})
                    # noise that must not matter
                    metas += [{"name": r.choice(ODD), "property": "", "content": "noise"}]
                    if rev:
                        metas.reverse()
                    out.append(case(r, "The title of the page itself", ld=ld, metas=metas, nold=nold, pby="By Someone" if "page" in s else "", cmp=ALL))
    return out


def titles(ck, n):
    out = []
    # every placement of up to two separators among up to six words, with headings that repeat all of it, a part, or nothing
    seps = [" ", " | ", " - ", " / ", " > ", " » ", " \\ ", ": ", " : ", "- "]
    grid = []
    words = ["One", "two", "three", "four", "five", "six", "seven"]
    for n_w in range(1, 8):
        for k in (0, 1, 2):
            for pos in itertools.combinations(range(n_w - 1), k):
                for ss in itertools.product(seps[1:], repeat=k):
                    grid.append((n_w, pos, ss))
    r = ck.rng("grid")
    r.shuffle(grid)
    for g, (n_w, pos, ss) in enumerate(grid[:len(grid)]):
        r = ck.rng("grid", n_w, pos, ss)
        t = words[0]
        for j in range(1, n_w):
            t += (ss[pos.index(j - 1)] if j - 1 in pos else " ") + words[j]
        h = [[], [t], ["Other heading"], [t.split(":")[-1].strip()], [t, "x"]]
        out.append(case(r, t, h1=r.choice(h), h2=r.choice(h + [[], []])))
    for i in range(n):
        r = ck.rng("title", i)
        t = title_text(r)
        h = lambda: r.choice([[], [], [t], [t.strip()], ["Head of it all"], [t, "Second"], ["Head  with  blanks "], [" " + t + " "], ["A", "B"], [t.upper()], [t.title()], [t + "!"]])
        out.append(case(r, t, h1=h(), h2=h(), **r.choice([{}, {}, {}, {}, {}, {"notitle": True}, {"second": "Another title here"} if t.strip() else {}])))
    # words before and behind a colon
    for a, b, c2, sep in itertools.product(range(1, 9), range(0, 7), range(0, 8), [": ", " : ", ":"]):
        r = ck.rng("colon", a, b, c2, sep)
        sep2 = r.choice([": ", ": ", ":", " :", " : "])
        w = lambda n, x: " ".join(x + str(j) for j in range(n))
        t = w(a, "a") + sep + w(b, "b") + (sep2 + w(c2, "c") if c2 else "")
        hs = [[], [], ["Other"], [t], [t + " "], [t.upper()], [t + "."], [t[:-1]]]
        out.append(case(r, t, h1=r.choice(hs), h2=r.choice(hs)))
    # lengths around the limits that call for the heading
    for ln in [1, 5, 13, 14, 15, 16, 17, 148, 149, 150, 151, 152, 200]:
        for ch in ["a", "é", "日"]:
            for brk in (0, 1):
                r = ck.rng("len", ln, ch, brk)
                t = (ch * (ln // 2) + " " + ch * (ln - ln // 2 - 1)) if brk and ln > 2 else ch * ln
                if ln > 40 and brk:
                    t = (("abcd ") * 50)[:ln]
                    t = t[:-1] + ch
                for h1 in ([], ["The main heading of this page"], ["One", "Two"], ["Short"]):
                    out.append(case(r, t, h1=h1))
    return out


def run(ck, cases):
    obs = ck.observe("extract", [a for _, a in cases])
    specs = []
    for (s, a), o in zip(cases, obs):
        specs.append(dict(s, obs={"out": o["out"]} if o["out"] != "ok" else {k: o[k] for k in ("out", "title", "byline", "excerpt", "site", "time")}))
    seen = 0
    for line in ck.judge("Meta", specs):
        w = line.split(" ", 2)
        if w[0] in ("GOOD", "BAD"):
            seen += 1
        if w[0] == "BAD":
            i = int(w[1]) - 1
            ck.violation("metadata: " + w[2].split("]")[0].strip("["), "extract", cases[i][1], {k: v for k, v in obs[i].items() if k not in ("tree", "html", "text")}, w[2], specs[i], "Meta")
    if seen != len(specs):
        raise RuntimeError("%d of %d cases without a verdict" % (len(specs) - seen, len(specs)))
    ck.traces += seen
    ck.evals += seen
    ck.sample({"html": cases[0][1]["html"]})
    ck.sample({"html": cases[-1][1]["html"]})


def c12(ck):
    run(ck, ladders(ck) + names(ck, ck.n(1500, 20000)) + sources(ck, ck.n(6000, 80000)))


def c13(ck):
    run(ck, titles(ck, ck.n(6000, 60000)))
