"""The checks, one per property."""
import json
import check, cli, dom, markup, meta, node, readerable, sessions, soup, families as F
from check import extraction

CHECKS = {}


def prop(name):
    def d(f):
        CHECKS[name] = f
        return f
    return d


def family(name, gen, q, t, soups=()):
    def run(ck):
        extraction(ck, gen(ck, ck.n(q, t)))
        if soups:
            soup.outputs(ck, soups, ck.n(3000, 40000))
    CHECKS[name] = run


family("C04", F.clean, 350, 4000, ("clean",))
family("C05", F.js, 400, 4000, ("js",))
family("C06", F.uris, 700, 4000)
family("C07", F.classes, 400, 4000, ("classes",))
family("C08", F.selected, 450, 4000, ("wrapped", "wellformed", "order", "text"))
family("C09", F.scored, 800, 4000)
family("C11", F.hidden, 600, 4000)
family("C15", F.dirlang, 1200, 4000)
family("C17", F.limits, 500, 1500)
family("C19", F.tables, 400, 3000)
family("C20", F.lazy, 800, 4000)
family("C23", F.conditional, 700, 3000)
family("C24", F.layout, 500, 3000)
family("C27", F.headings, 2500, 20000)
family("C28", F.furniture, 5000, 30000)
family("C29", F.players, 500, 4000)
family("C30", F.widgets, 2000, 20000)


@prop("C14")
def c14(ck):
    extraction(ck, F.bylines(ck, ck.n(700, 4000)) + F.bylines_meta(ck, ck.n(400, 2000)))


@prop("C25")
def c25(ck):
    extraction(ck, F.excerpts(ck, ck.n(900, 5000)) + F.excerpts_meta(ck, ck.n(400, 2000)))


@prop("C10")
def c10(ck):
    n = ck.n(500, 2500)
    ws = F.retry_docs(ck, n)
    # first the lengths the attempts reach, then thresholds around them
    cases = [w.case(opts={"thr": 100000}, kids=w.kids, cmp=F.FULL + ("lens",)) for w in ws]
    status, _ = extraction(ck, cases)
    again = []
    for i, c in enumerate(cases):
        st, rest = status.get(i, ("", ""))
        if st != "OK":
            continue
        lens = json.loads(rest.split(" ", 1)[1]) if " " in rest else []
        r = ck.rng("thr", i)
        ts = sorted({max(0, l + d) for l in lens for d in (-1, 0, 1)})
        for t in (ts if not ck.quick() else r.sample(ts, min(5, len(ts)))):
            w = ws[i]
            s = dict(c["spec"], thr=t, cmp=list(F.FULL))
            a = dict(c["args"], opts=dict(c["args"]["opts"], thr=t))
            again.append({"spec": s, "args": a, "doc": c["doc"]})
    extraction(ck, again)


CHECKS["C01"] = soup.run
CHECKS["C02"] = dom.run
CHECKS["C03"] = markup.run
CHECKS["C12"] = meta.c12
CHECKS["C13"] = meta.c13
CHECKS["C16"] = readerable.run
CHECKS["C18"] = sessions.c18
CHECKS["C21"] = sessions.c21
CHECKS["C22"] = cli.run
CHECKS["C26"] = node.run


def replay(path):
    with open(path, encoding="utf-8") as f:
        v = json.load(f)
    with check.Check(v["property"], v["tier"], v["seed"]) as ck:
        obs = ck.observe(v["op"], [v["args"]], shards=1, case_limit="60s")[0]
        print(json.dumps(obs, indent=1, ensure_ascii=False))
        print("expected:", v["expected"])
        return 0 if obs != v["observed"] else 1
