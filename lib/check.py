"""A check of one property: cases, observations of the real code, TLC, verdict, evidence."""
import json, os, random, sys, time
import core, docs

OUT = os.environ.get("VERIF_OUT") or os.path.join(core.VERIF, "evidence")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = core.Scratch()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.violations, self.notes, self.extra = [], [], [], {}
        self._bin = {}
        self.runs = 0

    def __enter__(self):
        self.scratch.__enter__()
        return self

    def __exit__(self, *a):
        self.scratch.__exit__(*a)

    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough=None):
        return quick if self.quick() else (thorough if thorough is not None else quick * 8)

    def rng(self, *key):
        return random.Random(":".join(map(str, (self.seed, self.prop) + key)))

    def harness(self, race=False):
        if race not in self._bin:
            self._bin[race] = core.build_harness(self.scratch, race)
        return self._bin[race]

    def observe(self, op, args_list, race=False, shards=core.CPUS, case_limit="20s"):
        res = core.run_harness(self.harness(race), [{"id": i, "op": op, "args": a} for i, a in enumerate(args_list)],
                               shards=shards, case_limit=case_limit)
        return [res[i] for i in range(len(args_list))]

    def tlc(self, module, cfg=None, env=None, **kw):
        self.runs += 1
        r = core.run_tlc(self.scratch, module, cfg=cfg, env=env, name="%s-%d" % (module, self.runs), **kw)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def write_cases(self, specs):
        f = self.scratch.path("cases-%d.ndjson" % self.runs)
        with open(f, "w", encoding="utf-8") as fh:
            for s in specs:
                fh.write(json.dumps(s, ensure_ascii=False) + "\n")
        return f

    def judge(self, module, specs, cfg=None, batch=4000):
        """Runs a trace specification over the cases: lines "WORD number rest" with the case's number (from 1).
        TLC writes a queue of more than 8192 states to disk and loses non-ASCII characters on the way, so few at a time."""
        lines = []
        for a in range(0, len(specs), batch):
            r = self.tlc(module, cfg=cfg, env={"CASES": self.write_cases(specs[a:a + batch])})
            for line in r.lines:
                w = line.split(" ", 2)
                if len(w) > 1 and w[1].isdigit():
                    w[1] = str(int(w[1]) + a)
                lines.append(" ".join(w))
        return lines

    def violation(self, what, op=None, args=None, observed=None, expected=None, spec=None, module=None):
        self.violations.append({"property": self.prop, "what": what, "op": op, "args": args, "observed": observed,
                                "expected": expected, "spec_case": spec, "module": module, "seed": self.seed, "tier": self.tier})

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    # -- the verdict ----------------------------------------------------------------
    def finish(self):
        os.makedirs(OUT, exist_ok=True)
        known = known_findings(self.prop)
        fresh, replay = [], None
        for v in self.violations:
            if any(k["args"] == v["args"] and k.get("what") == v["what"] for k in known):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, v["what"]))
            else:
                fresh.append(v)
        if fresh:
            fresh.sort(key=lambda v: len(json.dumps(v["args"], default=str)))
            replay = os.path.join(OUT, "%s.replay.json" % self.prop)
            with open(replay, "w", encoding="utf-8") as f:
                json.dump(fresh[0], f, indent=1, ensure_ascii=False, default=str)
            if os.environ.get("VERIF_ALL"):
                with open(os.environ["VERIF_ALL"], "w", encoding="utf-8") as f:
                    json.dump(fresh, f, indent=1, ensure_ascii=False, default=str)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.evals, "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        with open(os.path.join(OUT, "%s.json" % self.prop), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        print("%s %s: %d states, %d traces of the real code, %d evaluations, %.1f s" %
              (self.prop, self.tier, self.states, self.traces, self.evals, time.time() - self.t0))
        if fresh:
            for v in fresh[:5]:
                print("  " + v["what"][:300])
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        return 0


def known_findings(prop):
    p = os.path.join(core.VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        return [k for k in json.load(f).get("findings", []) if k.get("property") == prop]


# -- extraction ---------------------------------------------------------------------
def spec_obs(doc, o):
    if o["out"] != "ok":
        return {"out": o["out"]}
    tree = docs.obs_tree(doc, o["tree"])
    joined = "".join(x for d, g, a, x in o["tree"] if g == "")
    return {"out": "ok", "tree": tree, "text": doc.tokens(o["text"]), "exc": doc.tokens(o["excerpt"]), "byl": doc.tokens(o["byline"]),
            "dir": o["dir"], "lang": o["lang"], "len": o["len"], "rl": len(o["text"]), "same": joined == o["text"]}


def extraction(ck, cases, module="Props", sample=True):
    """Runs the cases through the real code and the specification; yields per-case status."""
    obs = ck.observe("extract", [c["args"] for c in cases])
    specs = []
    for c, o in zip(cases, obs):
        s = dict(c["spec"])
        s["obs"] = spec_obs(c["doc"], o)
        specs.append(s)
    status = {}
    for line in ck.judge(module, specs):
        w = line.split(" ", 2)
        if w[0] in ("OK", "AMB", "MISMATCH") and len(w) > 1:
            i = int(w[1]) - 1
            status[i] = (w[0], w[2] if len(w) > 2 else "")
    lv = {}
    for i, c in enumerate(cases):
        st, rest = status.get(i, ("NONE", ""))
        if st == "OK":
            lvl = rest.split(" ")[0]
            lv[lvl] = lv.get(lvl, 0) + 1
        else:
            lv[st] = lv.get(st, 0) + 1
        if st != "AMB":
            ck.traces += 1
        ck.evals += 1
    d = ck.extra.setdefault("accepted_at_level", {})
    for k in lv:
        d[k] = d.get(k, 0) + lv[k]
    bad = sorted((i for i in status if status[i][0] == "MISMATCH"), key=lambda i: len(cases[i]["args"]["html"]))
    if bad:
        # once more, alone
        again = ck.observe("extract", [cases[i]["args"] for i in bad[:20]], shards=1, case_limit="60s")
        for i, o in zip(bad, again):
            if obs[i]["out"] == "hang" and o["out"] != "hang":
                continue
            ck.violation("the extraction differs from the specification in %s" % status[i][1].split("}")[0].lstrip("{"), "extract",
                         cases[i]["args"], {k: v for k, v in o.items()}, status[i][1], specs[i], module)
    if sample and cases:
        c = min((c for c in cases), key=lambda c: abs(len(c["args"]["html"]) - 700))
        ck.sample({"html": c["args"]["html"], "opts": c["args"]["opts"], "compared": c["spec"]["cmp"]})
    return status, obs
