"""C26: attributes and text of a single node. The state graph of Node.tla is replayed on real nodes; look-ups by
identifier in random trees are judged by Lookup.tla."""
import json
import dom

SETUP = """CONSTANTS Mode = "%s" NVals = %d
SPECIFICATION Spec
INVARIANTS Once Meaning Show
PROPERTIES Local
CHECK_DEADLOCK FALSE
"""


def graph(ck, mode, nvals):
    f = ck.scratch.path("Node-%s-%d.cfg" % (mode, nvals))
    with open(f, "w") as fh:
        fh.write(SETUP % (mode, nvals))
    r = ck.tlc("Node", cfg=f)
    states, edges = {}, {}
    for line in r.lines:
        if line.startswith("S "):
            s = json.loads(line[2:])
            states[json.dumps(s["k"])] = s["v"]
        elif line.startswith("T "):
            t = json.loads(line[2:])
            edges.setdefault(json.dumps(t["a"]), []).append((t["op"], json.dumps(t["b"])))
    start = json.dumps([[], "text", "", False])
    assert start in states, start
    return states, edges, start


def replay(ck, mode, nvals, length):
    states, edges, start = graph(ck, mode, nvals)
    ws = dom.walks(ck, states, edges, start, length, (mode, nvals))
    args = [{"mode": mode, "ops": o, "views": [states[b] for b in to]} for o, to in ws]
    obs = ck.observe("nodewalk", args, case_limit="60s")
    steps = 0
    for a, o in zip(args, obs):
        steps += len(a["ops"])
        ck.traces += 1
        if o["out"] != "ok":
            n = o.get("at", 0) + 1
            ck.violation("after %s: %s" % (json.dumps(a["ops"][:n][-3:]), o.get("what") or o.get("msg") or o["out"]), "nodewalk",
                         dict(a, ops=a["ops"][:n], views=a["views"][:n]), o, a["views"][n - 1], None, "Node")
    ck.evals += steps
    ck.extra.setdefault("graphs", []).append({"mode": mode, "values": nvals, "states": len(states), "transitions": sum(map(len, edges.values())),
                                              "walks": len(ws), "steps_replayed": steps})
    ck.sample({"walk": ws[0][0][:12]})


def lookups(ck, n):
    specs, args = [], []
    for i in range(n):
        r = ck.rng("lookup", i)
        ids = ["", "a", "b", "A", "ab", "a b"]
        tree, d = [[1, r.choice(ids)]], 1
        for _ in range(r.choice([0, 1, 3, 6, 12, 20])):
            d = r.randint(2, d + 1)
            tree.append([d, r.choice(ids)])
        s = {"tree": tree, "from": r.randint(1, len(tree)) if r.random() < .4 else 1, "id": r.choice(ids[1:] + ["zz"])}
        specs.append(s)
        args.append(s)
    obs = ck.observe("lookup", args)
    out, idx = [], []
    for i, o in enumerate(obs):
        if o["out"] != "ok":
            ck.violation("looking up: %s" % (o.get("msg") or o["out"]), "lookup", args[i], o, None, specs[i], "Lookup")
            continue
        out.append(dict(specs[i], obs=o["found"]))
        idx.append(i)
    seen = 0
    for line in ck.judge("Lookup", out):
        w = line.split()
        if w[0] in ("GOOD", "BAD"):
            seen += 1
        if w[0] == "BAD":
            i = idx[int(w[1]) - 1]
            ck.violation("looking up an identifier found element %s" % obs[i]["found"], "lookup", args[i], obs[i], w[2], specs[i], "Lookup")
    if seen != len(out):
        raise RuntimeError("look-ups without a verdict")
    ck.traces += seen
    ck.evals += seen


def run(ck):
    replay(ck, "text", 1, 200)
    replay(ck, "attrs", 2, 200)
    replay(ck, "attrs", 3 if ck.quick() else 4, 400)
    lookups(ck, ck.n(1500, 15000))
