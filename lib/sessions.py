"""C18 and C21: sessions in one process, and the caller's serializer and converter."""
import json
from concurrent.futures import ThreadPoolExecutor
import core, families as F
from gen import cfg

SERS = ["same", "text", "wrap", "short", "empty"]
CONVS = ["same", "upper", "short", "empty", "twice"]
META = ['<meta name="author" content="Jo &amp; Co"/>', '<meta property="og:title" content="A title of its own"/>', '<meta property="og:site_name" content="Site %d"/>',
        '<script type="application/ld+json">{"@context":"http://schema.org","@type":"Article","headline":"Head %d","datePublished":"20%d"}</script>', '<base href="/other%d/"/>']
CLASSES = ["keep", "lead", "hero", "x", "page", "caption", "story", "post", "content"]


def retry_cases(ck, n):
    return [w.case(opts={"thr": ck.rng("rt", i).choice([60, 200, 500, 100000])}, kids=w.kids) for i, w in enumerate(F.retry_docs(ck, n))]


def pool(ck, n):
    """Pages with options; some share the page, some the address, some the options."""
    out = []
    conf = cfg(names=.4, byline=.1, hide=.1, dir=.2, lang=.6, thr=[1, 60, 200, 500], pres=.3)
    ws = F.wild(ck, n, "pool", conf, budget=500)
    hs = F.classes(ck, max(8, n // 8)) + F.uris(ck, max(6, n // 8)) + retry_cases(ck, max(6, n // 8))
    for i, w in enumerate(ws + hs):
        r = ck.rng("pool-o", i)
        html = w["args"]["html"]
        if r.random() < .6:
            m = r.choice(META)
            html = html.replace("</head>", (m % ((i,) * m.count("%d"))) + "</head>", 1)
        o = dict(w["args"]["opts"])
        base = {"kind": "extract", "html": html, "uri": r.choice(["http://one.example/a/b.html", "http://two.example/", w["args"]["uri"]]), "opts": o, "ser": "", "conv": "", "group": 0}
        out.append(base)
        # the same page with other options
        for _ in range(r.choice([1, 1, 2])):
            o2 = dict(o)
            k = r.choice(["pres", "pres", "pres", "keep", "thr", "ntop", "max", "nold", "vid"])
            if k == "pres":
                o2["pres"] = r.sample(CLASSES, r.choice([1, 2, 3]))
            else:
                o2[k] = {"keep": True, "thr": r.choice([0, 50, 3000]), "ntop": r.choice([1, 2, 20]), "max": r.choice([1, 5, 100000]), "nold": True, "vid": r.choice(["", "example"])}[k]
            out.append(dict(base, opts=o2))
        if r.random() < .4:
            out.append(dict(base, kind="ask", opts={k: v for k, v in (("minlen", r.choice([None, 5, 60])), ("minscore", r.choice([None, 0, 5]))) if v is not None}))
        if r.random() < .1:
            out.append(dict(base, html=r.choice(["", "<html></html>", "<html><body></body></html>", "<p>x</p>"])))
    r = ck.rng("pool")
    for i, s in enumerate(out):
        if s["kind"] == "extract" and r.random() < .5:
            s["ser"] = r.choice(SERS)
        if s["kind"] == "extract" and r.random() < .4:
            s["conv"] = r.choice(CONVS)
    return out


class Names:
    """Values by name."""

    def __init__(self):
        self.t, self.lens = {}, {}

    def __call__(self, v):
        if v not in self.t:
            n = "v%d" % len(self.t)
            self.t[v] = n
            self.lens[n] = len(v)
        return self.t[v]


def oth(o):
    return json.dumps(o, sort_keys=True, ensure_ascii=False)


def alone(ck, ss):
    """What each session yields in a process of its own, with nothing of the caller in it."""
    binary = ck.harness()

    def one(s):
        plain = dict(s, ser="", conv="", group=0)
        o = core.run_harness(binary, [{"id": 0, "op": "sessions", "args": {"sess": [plain], "schedule": []}}], shards=1)[0]
        return o
    with ThreadPoolExecutor(core.CPUS) as ex:
        obs = list(ex.map(one, ss))
    out = []
    for s, o in zip(ss, obs):
        ev = o.get("events") or []
        last = ev[-1] if ev else {"ev": "crash"}
        if s["kind"] == "ask":
            out.append({"out": last["ret"], "asked": ev[0]["ev"] == "asked"} if last["ev"] == "verdict" else {"out": "?", "asked": True})
        elif last["ev"] == "result":
            out.append({"out": "ok", "html": last["arg"], "text": last["ret"], "oth": oth(last["oth"])})
        else:
            out.append({"out": {"rejected": "rejected", "failed": "err"}.get(last["ev"], "?"), "html": "", "text": "", "oth": ""})
    return out


def spec_case(names, ss, al, events, nolen):
    sess = []
    for s, a in zip(ss, al):
        b = dict(a)
        if s["kind"] == "extract":
            b.update(html=names(a["html"]), text=names(a["text"]), oth=names(a["oth"]))
        sess.append({"kind": s["kind"], "ser": bool(s["ser"]), "conv": bool(s["conv"]), "alone": b})
    ev = []
    used = set()
    for e in events:
        f = {"s": e["s"], "ev": e["ev"], "arg": names(e["arg"]), "ret": e["ret"] if e["ev"] == "verdict" else names(e["ret"]), "len": e["len"],
             "oth": names(oth(e["oth"])) if e.get("oth") else ""}
        used.add(f["ret"])
        ev.append(f)
    return {"sess": sess, "ev": ev, "nolen": nolen, "lens": {n: names.lens[n] for n in used if n in names.lens} or {"-": 0}}


def validate(ck, runs, race=False, what="sessions", shards=core.CPUS):
    """runs: [(sessions, their results alone, harness arguments)]"""
    obs = ck.observe("sessions", [a for _, _, a in runs], race=race, case_limit="60s", shards=shards)
    names, specs, idx = Names(), [], []
    for i, ((ss, al, a), o) in enumerate(zip(runs, obs)):
        if o["out"] != "ok":
            ck.violation("%s: %s" % (what, "data race" if o["out"] == "race" else o["out"]), "sessions", a, o, "no race, no crash", None, "SessionsTrace")
            continue
        k = len(a["sess"])
        n = a.get("rounds", 1)
        specs.append(spec_case(names, list(ss) * n, list(al) * n, o["events"], ck.prop == "C18"))
        idx.append(i)
    seen = 0
    for line in ck.judge("SessionsTrace", specs):
        w = line.split()
        if w[0] not in ("GOOD", "BAD"):
            continue
        seen += 1
        if w[0] == "BAD":
            i, n = idx[int(w[1]) - 1], int(w[2])
            ev = obs[i]["events"]
            e = ev[n - 1] if n <= len(ev) else {"ev": "end", "s": 0}
            ck.violation("%s: event %d (%s of session %s) is not what the session yields alone" % (what, n, e["ev"], e["s"]), "sessions", runs[i][2], {"out": "ok", "events": ev[:n]},
                         "see SessionsTrace", None, "SessionsTrace")
    if seen != len(specs):
        raise RuntimeError("%d of %d runs without a verdict" % (len(specs) - seen, len(specs)))
    ck.traces += seen
    ck.evals += sum(len(s["ev"]) for s in specs)


def schedules(ck, shapes):
    """All interleavings of sessions of the given numbers of steps, from the specification."""
    specs = []
    for sh in shapes:
        sess = []
        for x in sh:
            if x == "ask":
                sess.append({"kind": "ask", "ser": False, "conv": False, "alone": {"out": "yes", "asked": True}})
            else:
                sess.append({"kind": "extract", "ser": x >= 3, "conv": x >= 4, "alone": {"out": "ok", "html": "h", "text": "t", "oth": "o"}})
        specs.append({"sess": sess})
    out = [[] for _ in shapes]
    for line in ck.judge("SessionsGen", specs):
        w = line.split(" ", 2)
        if w[0] == "H":
            out[int(w[1]) - 1].append(json.loads(w[2]))
    return out


def c18(ck):
    ss = pool(ck, ck.n(50, 200))
    al = alone(ck, ss)
    ck.extra["sessions"] = {k: sum(a["out"] == k for a in al) for k in ("ok", "err", "rejected", "yes", "no", "?")}
    by = {2: [], 3: [], 4: [], "ask": []}
    for i, (s, a) in enumerate(zip(ss, al)):
        if s["kind"] == "ask":
            by["ask"].append(i)
        else:
            for k in by:
                if k != "ask":
                    by[k].append(i)

    def dress(i, k, r):
        s = dict(ss[i])
        if s["kind"] == "extract":
            s["ser"] = r.choice(SERS) if k >= 3 else ""
            s["conv"] = r.choice(CONVS) if k >= 4 else ""
        return s
    shapes = [(4, 4), (3, 4), (2, 4), (4, "ask"), (2, 2, 2), (3, 3, 2), (3, "ask", 2), ("ask", "ask", 3)] + ([] if ck.quick() else [(4, 4, 4), (3, 3, 3), (2, 2, 2, 2), (4, 3, "ask")])
    gen = schedules(ck, shapes)
    ck.extra["schedules"] = {str(sh): len(g) for sh, g in zip(shapes, gen)}
    runs = []
    for sh, g in zip(shapes, gen):
        r = ck.rng("sched", sh)
        for sched in (g if len(g) <= ck.n(560, 40000) else r.sample(g, ck.n(560, 40000))):
            # pages by chance, with a preference for the same page with other options
            i0 = r.choice(by[sh[0]])
            picks = [i0]
            for k in sh[1:]:
                near = [j for j in by[k] if abs(j - i0) <= 3]
                picks.append(r.choice(near) if near and r.random() < .5 else r.choice(by[k]))
            sess = [dress(i, k, r) for i, k in zip(picks, sh)]
            if r.random() < .15 and sh[0] != "ask" and sh[1] != "ask":
                # the same option values for both
                sess[1] = dict(sess[1], opts=sess[0]["opts"], html=sess[0]["html"], uri=sess[0]["uri"])
                picks[1] = picks[0]
                sess[0]["group"] = sess[1]["group"] = 1
            runs.append((sess, [al[i] for i in picks], {"sess": sess, "schedule": sched}))
    # long histories: one after the other, and many at once
    for i in range(ck.n(80, 500)):
        r = ck.rng("hist", i)
        picks = [r.randrange(len(ss)) for _ in range(r.choice([6, 12, 24]))]
        if r.random() < .5:
            picks += picks[:4]
        sess = [ss[i] for i in picks]
        sched = []
        left = [k for k in range(len(picks)) for _ in range(4)]
        if r.random() < .6:
            sched = [k + 1 for k in left]
        else:
            r.shuffle(left)
            sched = [k + 1 for k in left]
        runs.append((sess, [al[i] for i in picks], {"sess": sess, "schedule": sched}))
    validate(ck, runs)
    ck.sample({"schedule": runs[0][2]["schedule"], "sessions": [{k: v for k, v in s.items() if k != "html"} for s in runs[0][0]]})
    # unsynchronised, under the race detector
    runs = []
    for i in range(ck.n(32, 200)):
        r = ck.rng("par", i)
        picks = [r.randrange(len(ss)) for _ in range(r.choice([4, 8]))]
        picks += r.sample(picks, 3)
        sess = [ss[i] for i in picks]
        runs.append((sess, [al[i] for i in picks], {"sess": sess, "rounds": ck.n(6, 12)}))
    validate(ck, runs, race=True, what="parallel sessions", shards=3)


def c21(ck):
    ss = []
    for i, w in enumerate(F.wild(ck, ck.n(500, 2500), "c21", cfg(names=.3, thr=[1, 60, 200, 500])) + retry_cases(ck, ck.n(20, 200)) +
                          F.excerpts(ck, ck.n(30, 300)) + F.dirlang(ck, ck.n(10, 100))):
        r = ck.rng("c21o", i)
        html = w["args"]["html"]
        if r.random() < .5:
            m = r.choice(META)
            html = html.replace("</head>", (m % ((i,) * m.count("%d"))) + "</head>", 1)
        ss.append({"kind": "extract", "html": html, "uri": w["args"]["uri"], "opts": w["args"]["opts"], "ser": "", "conv": "", "group": 0})
    al = alone(ck, ss)
    runs = []
    for i, s in enumerate(ss):
        r = ck.rng("c21p", i)
        combos = [(x, y) for x in [""] + SERS for y in [""] + CONVS]
        for x, y in (r.sample(combos, 16) if ck.quick() else combos):
            t = dict(s, ser=x, conv=y)
            runs.append(([t], [al[i]], {"sess": [t], "schedule": []}))
    validate(ck, runs, what="serializer and converter")
    ck.sample({"html": ss[0]["html"], "ser": runs[0][0][0]["ser"], "conv": runs[0][0][0]["conv"]})
