"""C01: sources of every kind, put together from pieces."""
import base64, re
import core
import families as F
from check import extraction
from gen import cfg, Wild

TAGS = ["div", "p", "b", "i", "span", "a", "ul", "li", "table", "tbody", "tr", "td", "th", "h1", "h2", "h3", "h4", "h5", "h6", "article", "section", "form", "fieldset", "object", "embed", "iframe", "figure",
        "picture", "img", "noscript", "br", "hr", "pre", "code", "font", "center", "svg", "path", "video", "audio", "source", "label", "header", "footer", "aside", "nav", "main",
        "blockquote", "dl", "dt", "dd", "select", "option", "button", "input", "head", "html", "base", "meta", "link", "caption", "col", "colgroup", "math", "template", "dialog", "details",
        "q:x", "x-y", "o:p", "p:", "frameset", "canvas", "area", "map", "track", "param", "wbr", "plain"]
RAWS = ["title", "textarea", "style", "xmp", "noembed", "noframes"]
ATTRS = ["id", "class", "style", "href", "src", "srcset", "data-src", "data-srcset", "dir", "lang", "hidden", "aria-hidden", "role", "rel", "itemprop", "colspan", "rowspan", "width", "height",
         "summary", "datatable", "type", "name", "property", "content", "poster", "alt", "aria-modal", "readability", "data-readability-score", "x", "=", "'", "\"a", "on<b", "é", "a/b"]
VALUES = ["", " ", "x", "comment", "byline", "author", "sidebar article", "hidden", "display:none", "display", ";;:;", ":", "::", "display:;visibility:hidden;", "javascript:alert(1)", "JaVaScRiPt:",
          "#", "#a", "http://", "http://[::1", "%zz", "//", "?", "a b", "\x00", "data:image/png;base64,AAAA", "data:image/svg+xml;base64,AAAA", "data:;base64,", "data:image/gif;base64,R0lGOD",
          "x.jpg", "x.jpg 1x, y.png 2x", ", ,", "1x", " x.jpg", "x.png?1", "999999999999999999999", "-1", "0", "1.5", "abc", "true", "dialog", "presentation", "menu", "og:title", "dc:title", "title",
          "description", "application/ld+json", "text/javascript", "ltr", "rtl", "é\U0001f600", "<b>", "&", "&amp;", "&#x110000;", "&#99999999;", "\n", "page", "http://h.example/\x7f", "//youtube.com/embed/x"]
ODD = ["&#0;", "&#xD800;", "&#x110000;", "&#99999999999;", "&bogus;", "&;", "&#;", "&#x;", "\x00"]
TEXTS = ["hello", "word, word, word, ", "Lorem ipsum dolor, sit amet. " * 6, "one, two, three, four, five, six, seven, eight, nine, ten, eleven. " * 4, " ", "\n", "\u00a0", "&", "&amp;", "&lt;b&gt;",
         "&#0;", "&#xD800;", "&#x110000;", "&#99999999999;", "&bogus;", "&;", "&#;", "&#x;", "< ", "<3", "a< b", "< ", ">", "\x00", "\ufeff", "\ufffd", "\u2028", "é日本\U0001f600", "]]>", "-->", "'\"", "..", "By Jo Doe",
         "{\"@context\":\"http://schema.org\",\"@type\":\"Article\"}", "\t\r\n", "،،،", "|", " - ", ":"]
MARKUP = ["<!DOCTYPE html>", "<!doctype>", "<!-- c -->", "<!---->", "<!>", "<?php x ?>", "<![CDATA[x<b]]>", "<![CDATA[]]>", "</>", "</ >", "<!-->", "<!--->", "<%x%>", "<>"]
LD = ['{"@context":"https://schema.org","@graph":[{"@type":"Article","author":[{}]},1,null]}', '{"@context":"http://schema.org","@type":["Article"]}', "[]", "{", "null", '{"@context":1}',
      '{"@context":"http://schema.org","@type":"Article","author":[1],"publisher":[],"name":{},"headline":null}', '{"@context":"http://schema.org","@type":"Article","author":[{"name":"a"},{"name":2},3]}',
      '{"@context":"http://schema.org","@graph":{}}', '<![CDATA[{"@context":"http://schema.org","@type":"Article","name":"n","headline":"h"}]]>', '"' * 5]
URIS = ["http://host.example/a/b.html", "", "x", "http://", ":", "%zz", "http://[::1", "mailto:a@b", "/rel", "//h", "file:///etc/x", "http://h.example:99999/", "http://h .example/", "é://é", "#f", "?q", "data:,x", "\x00", "http://h/%"]


def attrs(r):
    s = ""
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 4])):
        n = r.choice(ATTRS)
        v = r.choice(VALUES) if r.random() < .9 else " ".join(r.choice(VALUES) for _ in range(3))
        q = r.choice(['"', '"', "'"])
        k = r.random()
        if n in ("=", "'", "\"a", "on<b", "a/b"):
            s += " " + n.replace("<", "").replace('"', "").replace("'", "") + "z"     # odd, but not swallowing the tag's end
        elif k < .08:
            s += " " + n
        else:
            s += " %s=%s%s%s" % (n, q, v.replace(q, ""), q)
    return s


def cased(r, t):
    return t if r.random() < .9 else t.upper()


def soup(r, n, serial=False):
    """(pieces, source); serial: the texts carry numbers"""
    ps, src, open_, count = [], "", [], 0

    def put(s, p="x", q=""):
        nonlocal src
        src += s
        ps.append([p, q])
    where = r.choice([0, 0, 0, 1, n // 2, -1])       # where the body's start tag is put, if at all
    for i in range(n):
        if i == where:
            if r.random() < .5:
                put("<html%s>" % attrs(r))
                open_.append("html")
            put("<%s%s>" % (cased(r, "body"), attrs(r)), "body")
            open_.append("body")
            continue
        k = r.random()
        if k < .36:
            t = r.choice(TAGS)
            void = r.random() < (.9 if t in ("img", "br", "hr", "input", "embed", "source", "base", "meta", "link", "col", "param", "wbr", "area", "track") else .06)
            if t in ("iframe", "noscript"):
                if r.random() < .7:
                    put("<%s%s>%s</%s>" % (t, attrs(r), r.choice(["", "x", "<img src='x.jpg'/>", "<p>y</p>"]) if t == "noscript" else "", t))
                continue
            put("<%s%s%s>" % (cased(r, t), attrs(r), "/" if void else ""))
            if not void:
                open_.append(t)
        elif k < .6:
            if open_ and r.random() < .8:
                t = open_.pop()
            else:
                t = r.choice([x for x in TAGS if x != "html"] if serial else TAGS + ["body", "html"])
            if t not in ("iframe", "noscript"):
                put("</%s>" % cased(r, t), "end", t)
        elif k < .86:
            x = r.choice([t for t in TEXTS if t not in ODD] if serial else TEXTS)
            if serial:
                count += 1
                x = "k%dq " % count + x + r.choice(["", "", "word, word, word, word, word. " * 5])
            put(x)
            if src.endswith("<"):
                put(" ")
        elif k < .91:
            put(r.choice(MARKUP))
        elif k < .94:
            put("<script%s>%s</script>" % (r.choice([' type="application/ld+json"'] * 3 + [" ", ""]), r.choice(LD + TEXTS[:3])))
        elif k < .97:
            put(r.choice(["<noscript><img src='a.jpg' data-x='b.png'/></noscript>", "<img/><noscript><img/></noscript>", "<noscript><p><img src='y.png'/></p></noscript>", "<br/><br/>", "<br/> <br/>\n<br/>",
                          "<p><br/><br/></p>", "<table><tr><td>x</td></tr></table>", "<table><tbody><tr></tr></tbody></table>", "<figure><noscript></noscript></figure>", "<svg><title>t</title></svg>",
                          "<a href='javascript:x'></a>", "<a href='JAVASCRIPT:x'><b>q</b>r</a>", "<object><embed src='//youtube.com/x'/></object>", "<ul><li></li></ul>", "<picture><source/></picture>"]))
        elif k < .985:
            t = r.choice(RAWS)
            put("<%s>%s</%s>" % (t, r.choice(["x", "a<b>", "", "<body>", "&lt;"]), t))
        elif k < .99 and i > n * 2 // 3 and not serial:
            put("<%s>" % (r.choice(RAWS)))
            ps[-1] = ["raw", src[src.rindex("<") + 1:-1]]
    k = r.random()
    if k < .5:
        while open_:
            t = open_.pop()
            put("</%s>" % t, "end", t)
    elif k < .6:
        put(r.choice(["<!-- open", "<div class=\"x", "<p", "</p", "<", "<!", "<a href='"] + ([] if serial else ["&", "&#", "&amp"]) + ["<![CDATA[x", "<script>", "<plaintext>"]), "all")
    return ps, src


def anyjson(r, d=0):
    k = r.random()
    if d > 3 or k < .45:
        return r.choice(['"x"', '""', '" "', "1", "-1.5e9", "null", "true", '"Article"', '"http://schema.org"', '"https://schema.org/"', '"a, b"', '"&lt;b&gt;"', '"\\u0000"', "[]", "{}", '"\\ud800"'])
    if k < .6:
        return "[" + ",".join(anyjson(r, d + 1) for _ in range(r.choice([0, 1, 2, 3]))) + "]"
    keys = ["@context", "@type", "@graph", "name", "headline", "author", "publisher", "description", "datePublished", "@vocab", "x"]
    return "{" + ",".join('"%s":%s' % (q, '"http://schema.org"' if q == "@context" and r.random() < .8 else '"%s"' % r.choice(["Article", "NewsArticle", "Thing"]) if q == "@type" and r.random() < .8 else anyjson(r, d + 1))
                          for q in r.sample(keys, r.choice([1, 2, 4, 7, 11]))) + "}"


def solid(r):
    """A page with an article for certain, and something odd in one of the places that are looked at."""
    v = lambda: r.choice(VALUES).replace('"', "")
    u = lambda: r.choice(URIS + VALUES).replace('"', "")
    words = lambda n: " ".join(r.choice(["word", "words,", "lorem", "sit.", "é", "&amp;", "more:"]) for _ in range(n))
    head = "<title>%s</title>" % r.choice([words(4), words(3) + r.choice([" | ", " - ", ": ", " » ", " / ", "|", " \\ "]) + words(r.choice([0, 1, 3])), "", " ", " - ", ":", "|" * 9, words(60), "é" * 200, "a : b : c", "&#x110000;"])
    if r.random() < .5:
        head += '<base href="%s"/>' % u()
    for _ in range(r.choice([0, 1, 3])):
        head += '<meta %s="%s" content="%s"/>' % (r.choice(["name", "property", "itemprop"]), r.choice(["og:title", "author", "description", " og:title twitter:title ", "dc:title", "article:published_time", "weibo:article:title", v()]), r.choice([v(), words(4), "&#x110000;"]))
    for _ in range(r.choice([0, 0, 1, 2])):
        head += '<script type="application/ld+json">%s</script>' % r.choice([anyjson(r), anyjson(r), r.choice(LD), "<![CDATA[%s]]>" % anyjson(r), "<!-- %s -->" % anyjson(r)])
    g = []
    for _ in range(r.choice([1, 2, 4])):
        g.append(r.choice([
            lambda: '<p><a href="%s">%s</a> %s</p>' % (u(), words(2), words(9)), lambda: '<a href="javascript:%s">%s</a>' % (v(), r.choice([words(2), "<b>x</b>", "<b>x</b>y<i></i>", ""])),
            lambda: '<img %s="%s" %s="%s"/>' % (r.choice(["src", "data-src", "alt"]), u(), r.choice(["srcset", "class", "data-x"]), r.choice([v(), v(), "a.jpg %dx, b.jpg" % r.choice([0, 2]), "lazy"])),
            lambda: "<table><caption>%s</caption><tr><td colspan='%s'>%s</td><td rowspan=\"%s\">x</td></tr></table>" % (words(1), v().replace("'", ""), words(3), v()),
            lambda: "<img src='a.jpg'/><noscript><img src=\"%s\"/></noscript>" % u(), lambda: '<noscript><img %s="%s"/></noscript>' % (r.choice(ATTRS[:9]), v()),
            lambda: '<video poster="%s"><source src="%s"/></video>' % (u(), u()), lambda: '<div %s="%s">%s</div>' % (r.choice(ATTRS[:30]), v(), words(9)), lambda: "<h%d>%s</h%d>" % ((lambda q: (q, words(4), q))(r.randint(1, 6))),
            lambda: "x<br/><br/>%s<br/> <br/>" % words(3), lambda: '<iframe src="%s"></iframe>' % u(), lambda: '<object data="%s"><param value="%s"/></object>' % (u(), u()), lambda: "<figure><img/><figcaption>%s</figcaption></figure>" % words(2),
            lambda: "<ul>" + "<li><img src='a.jpg'/></li>" * r.choice([0, 1, 3]) + "</ul>", lambda: "<p></p><p><br/></p><div><div><section></section></div></div>", lambda: '<span rel="author" class="%s">%s</span>' % (v(), words(r.choice([0, 2, 30]))),
            lambda: "<!-- c --><![CDATA[%s]]>" % words(2), lambda: "<svg><title>t</title><path d='m'/></svg>", lambda: "<form><input/><p>x</p></form>"])())
    g += ["<p>%s</p>" % ("some words, of an article, and more of them. " * r.choice([1, 2, 6])) for _ in range(r.choice([0, 1, 3, 5]))]
    r.shuffle(g)
    for _ in range(r.choice([0, 1, 1, 3])):
        i, j = sorted((r.randint(0, len(g)), r.randint(0, len(g))))
        t = r.choice(["div", "div", "section", "article", "td", "p", "b", "ul", "form", "table", "figure", "code"])
        g[i:j] = ["<%s%s>" % (t, attrs(r)) + "".join(g[i:j]) + "</%s>" % t]
    return [["x", ""], ["body", ""], ["x", ""]], "<html%s><head>%s</head><body%s>%s</body></html>" % (attrs(r), head, attrs(r), "".join(g))


def huge(r):
    """Deep, wide and degenerate sources."""
    n = r.choice([50, 300, 1200])
    t = r.choice(["div", "b", "span", "p", "ul", "table", "a", "section", "blockquote", "font", "article"])
    k = r.choice(["deep", "unclosed", "stray", "wide", "chars", "attrs", "brs", "imgs", "tables", "mixed"])
    head, tail = "<html><body>", "</body></html>"
    x = "word, word, word. "
    if k == "deep":
        s = ("<%s>" % t) * n + "<p>" + x * 10 + "</p>" + ("</%s>" % t) * n
    elif k == "unclosed":
        s = ("<%s>x" % t) * n
    elif k == "stray":
        s = "<div>" + ("</%s>" % t) * n + x * 20 + "</div>"
    elif k == "wide":
        s = "<div>" + ("<%s>%s</%s>" % (t, x, t)) * n + "</div>"
    elif k == "chars":
        s = "<p>" + r.choice(["&", "<", "&amp;", "\x00", "'", ",", "é", " ", "&#38;"]) * n * 5 + "</p>"
    elif k == "attrs":
        s = "<p " + " ".join("a%d='x'" % i for i in range(n)) + ">" + x * 10 + "</p>"
    elif k == "brs":
        s = "<div>" + ("x<br/><br/>" if r.random() < .5 else "<br/> ") * n + "</div>"
    elif k == "imgs":
        s = "<div>" + "<img data-x='y.jpg'/><noscript><img src='z.jpg'/></noscript>" * n + x * 20 + "</div>"
    elif k == "tables":
        m = min(n, 150)
        s = "<table><tr><td>" * m + x * 10 + "</td></tr></table>" * m
    else:
        s = "".join("<div class='c%d'><p>%s</p>" % (i, x) for i in range(n)) + "</div>" * n
    return [["x", ""], ["body", ""], ["x", ""]], head + s + tail


def options(r):
    o = {}
    for k, vs in (("thr", [0, 1, 20, 500, 100000, -5]), ("ntop", [1, 2, 5, 1000]), ("max", [0, 0, 0, 100000, -3]), ("keep", [True, False]), ("pres", [["a"], ["page", "x"], [""]]), ("vid", ["", "x", "youtube"]),
                  ("nold", [True, False]), ("minlen", [0, 1, 50, -10, 100000]), ("minscore", [0, -1, 5, 1e9])):
        if r.random() < .3:
            o[k] = r.choice(vs)
    return o


def survive_args(b, u, o, tree=False):
    a = {"b64": base64.b64encode(b).decode(), "uri": u, "opts": o}
    if tree:
        a["tree"] = True
    return a


def outputs(ck, what, n):
    """What holds for the content whatever the source was (Output.tla): one aspect of it."""
    cs = []
    for i in range(n):
        r = ck.rng("outputs", i)
        ps, src = soup(r, r.choice([6, 12, 25, 50, 100]), serial=True)
        o = options(r)
        o.pop("max", None)
        if o.get("pres") == [""]:
            del o["pres"]
        # all of it in one body
        src = r.choice(["<body>", "<html><head><title>t</title></head><body class='c'>", "<!DOCTYPE html><html lang='en'><body>"]) + src
        cs.append((src.encode("utf-8"), r.choice(URIS) if r.random() < .2 else URIS[0], dict(o, thr=r.choice([1, 50, 500, 3000]))))
    args = [survive_args(b, u, o, True) for b, u, o in cs]
    obs = ck.observe("survive", args)
    specs, of = [], []
    for i, ((b, u, o), ob) in enumerate(zip(cs, obs)):
        if ob["out"] != "ok" or ob["life"] != "result":
            continue          # see C01
        joined = "".join(x for d, g, a, x in ob["tree"] if g == "")
        tree = [[d, g, [[k, v, v.split() if k == "class" else [], v.strip("".join(map(chr, range(33)))).lower().startswith("javascript:")] for k, v in a],
                 [int(m) for m in re.findall(r"k(\d+)q", x)] if g == "" else []] for d, g, a, x in ob["tree"]]
        specs.append({"tree": tree, "keep": bool(o.get("keep")), "pres": o.get("pres", []), "len": ob["len"], "rl": len(ob["text"]), "same": joined == ob["text"]})
        of.append(i)
    done, bad = 0, {}
    for line in ck.judge("Output", specs, batch=1500):
        w = line.split(" ", 2)
        if w[0] == "DONE":
            done += 1
        elif w[0] == "BAD":
            bad[int(w[1]) - 1] = w[2]
    if done != len(specs):
        raise core.CheckError("the walk over the content did not end")
    for j, b in sorted(bad.items()):
        hit = [w for w in what if '"%s"' % w in b]
        if hit:
            i = of[j]
            ck.violation("the content of some page is not %s" % hit, "survive", args[i], obs[i], "a content for which Output.tla's walk finds nothing wrong", specs[j], "Output")
    ck.traces += len(specs)
    ck.evals += len(cs)
    ck.extra["soup_results"] = len(specs)


def run(ck):
    cs = []
    for i in range(ck.n(9000, 150000)):
        r = ck.rng("soup", i)
        ps, src = soup(r, r.choice([1, 3, 6, 12, 25, 50, 100]))
        if r.random() < .5:
            # certainly a body
            ps, src = [["body", ""]] + ps, "<body>" + src
        b = src.encode("utf-8")
        if r.random() < .1 and len(b):
            # not UTF-8 any more, the markup untouched
            b = b.replace("é".encode(), r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88"]))
        cs.append((ps, b, r.choice(URIS) if r.random() < .4 else URIS[0], options(r)))
    for i in range(ck.n(8000, 100000)):
        r = ck.rng("solid", i)
        ps, src = solid(r)
        cs.append((ps, src.encode("utf-8", "replace"), r.choice(URIS) if r.random() < .2 else URIS[0], options(r) if r.random() < .5 else {}))
    for i in range(ck.n(150, 1500)):
        r = ck.rng("huge", i)
        ps, src = huge(r)
        cs.append((ps, src.encode(), URIS[0], options(r)))
    for s in ("", " ", "\n", "<", "<body>", "<body", "</body>", "<BODY/>", "<html>", "<title><body></title>", "<!--<body>-->", "x", "<body/>x", "\x00", "<p>x</p>"):
        cs.append(([["body", ""]] if s in ("<body>", "<BODY/>", "<body/>x") else [["x", ""]], s.encode(), URIS[0], {}))
    args = [survive_args(b, u, o) for _, b, u, o in cs]
    obs = ck.observe("survive", args)
    # what hung or crashed once more, alone
    bad = [i for i, o in enumerate(obs) if o["out"] != "ok"]
    for i, o in zip(bad[:10], ck.observe("survive", [args[i] for i in bad[:10]], shards=1, case_limit="120s") if bad else []):
        obs[i] = o
    specs = []
    for (ps, b, u, o), ob in zip(cs, obs):
        specs.append({"pieces": ps, "empty": b == b"", "obs": {"life": ob.get("life", ob["out"]), "ask": ob.get("ask", "")}})
    fit, ends = set(), {}
    for line in ck.judge("Outcome", specs):
        w = line.split()
        if w[0] == "FITS":
            fit.add(int(w[1]) - 1)
            ends[w[2]] = ends.get(w[2], 0) + 1
    for i in range(len(cs)):
        if i not in fit:
            ck.violation("no life of a reader ends in: %s%s" % (specs[i]["obs"]["life"], " " + obs[i]["msg"][:150] if obs[i].get("msg") else ""), "survive", args[i],
                         {k: (v[:4000] if isinstance(v, str) else v) for k, v in obs[i].items()}, "a result, an error, or rejection for want of a body", specs[i], "Outcome")
    ck.traces += len(cs)
    ck.evals += len(cs)
    ck.extra["ends"] = ends
    ck.sample({"source": cs[0][1].decode("utf-8", "replace"), "opts": cs[0][3]})
    # pages the extraction's specification understands: exactly when is it an error?
    conf = cfg(hide=.3, names=.5, thr=[0, 1, 20, 100, 500, 3000])
    pages = F.wild(ck, ck.n(250, 3000), "c01", conf, cmp=("outcome",), budget=None)
    small = []
    for i in range(ck.n(250, 3000)):
        r = ck.rng("small", i)
        w = Wild(r, conf, r.choice([1, 5, 20, 60]))
        small.append(w.case(opts={"thr": r.choice([1, 5, 100, 500])}, cmp=("outcome",)))
    extraction(ck, pages + small)
