"""C02: edits of trees. The state graph of Dom.tla is replayed on real nodes; longer random histories
and the trees of real extractions are recorded and checked against the specification."""
import json
from collections import deque
import families as F
from gen import cfg

SETUP = """CONSTANTS NE = %d NT = %d NF = %d Sets = %d
SPECIFICATION %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def graph(ck, ne, nt, nf, sets):
    import core, os, shutil
    f = ck.scratch.path("Dom-%d%d%d%d.cfg" % (ne, nt, nf, sets))
    with open(f, "w") as fh:
        fh.write(SETUP % (ne, nt, nf, sets, "Spec", "TypeOK Forest Refines Show"))
    r = ck.tlc("Dom", cfg=f)
    states, edges = {}, {}
    for line in r.lines:
        if line.startswith("S "):
            s = json.loads(line[2:])
            states[json.dumps([s["k"], s["kd"], s["n"]])] = s["v"]
        elif line.startswith("T "):
            t = json.loads(line[2:])
            a, b = json.dumps([t["a"], t["ak"], t["an"]]), json.dumps([t["b"], t["bk"], t["bn"]])
            edges.setdefault(a, []).append((t["op"], b))
    start = json.dumps([[[] for _ in range(ne + nt + nf)], ["e"] * ne + ["t"] * nt + [""] * nf, 0])
    assert start in states, start
    return states, edges, start


def walks(ck, states, edges, start, length, key):
    """Walks from the start that take every transition of the graph at least once."""
    rng = ck.rng("walks", key)
    todo = {}
    for a in edges:
        es = list(edges[a])
        rng.shuffle(es)
        todo[a] = es
    left = sum(len(v) for v in todo.values())
    succ = {a: list({b: (op, b) for op, b in edges[a]}.values()) for a in edges}

    # the first step of a shortest way to the start's frontier is recomputed whenever it runs dry
    def way(a):
        seen, q = {a: None}, deque([a])
        while q:
            x = q.popleft()
            if todo.get(x):
                path = []
                while seen[x] is not None:
                    y, op = seen[x]
                    path.append((op, x))
                    x = y
                return path[::-1]
            for op, b in succ.get(x, ()):
                if b not in seen:
                    seen[b] = (x, op)
                    q.append(b)
        return None

    out = []
    while left:
        at, ops, to = start, [], []
        while len(ops) < length:
            if todo.get(at):
                op, b = todo[at].pop()
                left -= 1
                ops.append(op)
                to.append(b)
                at = b
                continue
            w = way(at)
            if w is None:
                break
            for op, b in w:
                ops.append(op)
                to.append(b)
            at = to[-1] if to else at
            if not w:
                break
        if not ops:
            break
        out.append((ops, to))
    return out


def replay_graph(ck, ne, nt, nf, sets, length):
    states, edges, start = graph(ck, ne, nt, nf, sets)
    ws = walks(ck, states, edges, start, length, (ne, nt, nf, sets))
    ids = {s: i for i, s in enumerate(states)}
    views = [states[s] for s in states]
    parts = [ws[i::8] for i in range(8)]
    args = []
    for p in parts:
        if not p:
            continue
        used = sorted({ids[b] for _, to in p for b in to})
        loc = {u: i for i, u in enumerate(used)}
        args.append({"ne": ne, "nt": nt, "views": [views[u] for u in used],
                     "walks": [{"ops": o, "to": [loc[ids[b]] for b in to]} for o, to in p]})
    obs = ck.observe("domwalk", args, case_limit="300s")
    steps = 0
    for a, o in zip(args, obs):
        steps += o.get("steps", 0)
        ck.traces += len(a["walks"])
        if o["out"] != "ok":
            ops = o.get("ops")
            ck.violation("after %s: %s" % (json.dumps(ops[-1]) if ops else "?", o.get("what") or o.get("msg") or o["out"]), "domwalk",
                         {"ne": ne, "nt": nt, "views": [o.get("want")], "walks": [{"ops": ops, "to": [0] * len(ops or ())}]}, o, o.get("want"), None, "Dom")
    ck.evals += steps
    d = ck.extra.setdefault("graphs", [])
    d.append({"elements": ne, "texts": nt, "fresh": nf, "states": len(states), "transitions": sum(map(len, edges.values())),
              "walks": len(ws), "steps_replayed": steps})
    ck.sample({"walk": ws[0][0][:12]})


MARKUP = [[], ["t"], ["e"], ["e", "t"], ["t", "e"], ["e", "e"], ["(et)"], ["t", "e", "t"]]


def histories(ck, count, length, ne=6, nt=4, nf=8):
    """Random edits on more nodes; which ones are allowed is tracked here, where they lead is not decided here."""
    cases = []
    for h in range(count):
        r = ck.rng("history", h)
        par, kind, kids = {}, {}, {}
        for x in range(1, ne + nt + 1):
            par[x], kind[x], kids[x] = 0, "e" if x <= ne else "t", []
        top, ops = ne + nt, []

        def below(x):
            s = {x}
            for y in kids[x]:
                s |= below(y)
            return s

        def move(x):
            if par[x]:
                kids[par[x]].remove(x)
            par[x] = 0
        while len(ops) < length:
            k = r.choice(["append"] * 5 + ["remove"] * 2 + ["remove!"] + ["replace"] * 6 + ["text", "markup"])
            els = [x for x in kind if kind[x] == "e"]
            p = r.choice(els)
            if k == "append":
                x = r.choice(list(kind))
                if p in below(x):
                    continue
                move(x)
                kids[p].append(x)
                par[x] = p
                ops.append(["append", p, x])
            elif k == "remove":
                if not kids[p]:
                    continue
                x = r.choice(kids[p])
                move(x)
                ops.append(["remove", p, x])
            elif k == "remove!":
                x = r.choice(list(kind))
                if par[x] == p:
                    continue
                ops.append(["remove!", p, x])
            elif k == "replace":
                if not kids[p]:
                    continue
                old = r.choice(kids[p])
                # often the neighbours: they are where links can go wrong
                pool = kids[p] if r.random() < 0.5 else list(kind)
                new = r.choice(pool)
                if p in below(new):
                    continue
                ops.append(["replace", p, new, old])
                if new != old:
                    move(new)
                    i = kids[p].index(old)
                    kids[p][i] = new
                    par[new], par[old] = p, 0
            else:
                m = ["t"] if k == "text" else r.choice(MARKUP)
                size = 2 if m == ["(et)"] else len(m)
                if size > ne + nt + nf - top or r.random() < 0.3 or (k == "text" and size == 0) or top == ne + nt + nf:
                    continue
                for x in kids[p]:
                    par[x] = 0
                new = list(range(top + 1, top + size + 1))
                top += size
                for j, x in enumerate(new):
                    kids[x] = []
                    par[x] = p
                    kind[x] = ("e" if j == 0 else "t") if m == ["(et)"] else m[j]
                if m == ["(et)"]:
                    kids[p], kids[new[0]], par[new[1]] = [new[0]], [new[1]], new[0]
                else:
                    kids[p] = new
                ops.append(["text", p] if k == "text" else ["markup", p, m])
        cases.append({"ne": ne, "nt": nt, "total": ne + nt + nf, "ops": ops})
    obs = ck.observe("domrec", cases)
    specs, idx = [], []
    for i, (c, o) in enumerate(zip(cases, obs)):
        if o["out"] != "ok":
            ck.violation("edits: %s" % (o.get("what") or o.get("msg") or o["out"]), "domrec", c, o, None, None, "DomTrace")
            continue
        specs.append({"ops": c["ops"], "views": o["views"]})
        idx.append(i)
    g = ck.scratch.path("DomTrace.cfg")
    with open(g, "w") as fh:
        fh.write(SETUP % (ne, nt, nf, nf, "TSpec", "Told"))
    good = 0
    for line in ck.judge("DomTrace", specs, cfg=g):
        w = line.split()
        if w[0] == "BAD":
            c, n = cases[idx[int(w[1]) - 1]], int(w[2])
            ck.violation("after %s the links are not those of the forest" % json.dumps(c["ops"][n - 1]), "domrec",
                         dict(c, ops=c["ops"][:n]), {"out": "ok", "views": specs[int(w[1]) - 1]["views"][:n]}, "see DomTrace", None, "DomTrace")
        elif w[0] == "GOOD":
            good += 1
    if good + len(ck.violations) < len(specs):
        raise RuntimeError("histories without a verdict")
    ck.traces += len(specs)
    ck.evals += len(specs) * length


def articles(ck, n):
    cases = F.wild(ck, n, "c02", cfg(brrun=0.3, hide=0.1))
    args = [{"html": c["args"]["html"], "thr": c["args"]["opts"].get("thr", 500)} for c in cases]
    obs = ck.observe("domart", args)
    specs, idx = [], []
    for i, o in enumerate(obs):
        if o["out"] == "ok" and o["view"]:
            specs.append({"view": o["view"], "kinds": o["kinds"]})
            idx.append(i)
    seen = 0
    for line in ck.judge("DomTree", specs):
        w = line.split()
        if w[0] in ("GOOD", "BAD"):
            seen += 1
        if w[0] == "BAD":
            i = idx[int(w[1]) - 1]
            ck.violation("the links of the extracted article are inconsistent", "domart", args[i], obs[i], "one tree", None, "DomTree")
    if seen != len(specs):
        raise RuntimeError("trees without a verdict")
    ck.traces += seen
    ck.evals += seen


def run(ck):
    for c in ([(3, 1, 0, 0, 40), (2, 2, 0, 0, 40), (3, 2, 0, 0, 60), (2, 1, 2, 1, 40)] if ck.quick() else
              [(3, 2, 0, 0, 100), (2, 1, 2, 2, 60), (2, 3, 0, 0, 60), (4, 1, 0, 0, 60), (2, 2, 1, 1, 40)]):
        replay_graph(ck, *c)
    histories(ck, ck.n(300, 4000), ck.n(60, 120))
    articles(ck, ck.n(300, 3000))
