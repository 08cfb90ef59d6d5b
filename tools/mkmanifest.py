#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks there are."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
TECH = {
    "C01": "TLA+ specifications of the reader and of the parser; outcomes of the real code on hostile pages validated against them by TLC",
    "C02": "TLA+ specification of the linked tree refining an ordered forest; every transition TLC enumerates is replayed on the real nodes",
    "C03": "TLA+ specification of writing and reading markup; the real parser's trees validated against it by TLC",
    "C12": "TLA+ specification of the sources of metadata; enumerated and observed results validated by TLC",
    "C13": "TLA+ specification of the title reduction; observed titles validated by TLC",
    "C16": "TLA+ specification of the readerability judgement; observed answers validated by TLC",
    "C18": "TLA+ model of concurrent and successive sessions; TLC's interleavings replayed on the real code, results compared with isolated ones",
    "C21": "TLA+ specification of the final steps of an extraction; recorded calls of the caller's functions validated by TLC",
    "C22": "TLA+ specification of the command as a state machine; TLC's scenarios run with the real command against a loopback server",
    "C26": "TLA+ specification of what a node remembers; every transition TLC enumerates is replayed on real nodes, look-ups validated by TLC",
}
DEFAULT = "TLA+ state machine of the extraction checked with TLC; observed results of the real code validated against it, page by page"
NOTE = ("Bounded model checking plus trace validation: within the pages explored (see the evidence) every step of the specification satisfies its "
        "invariants and the real code's result is the one the specification prescribes. Trusts TLC, the page generator's rendering, and "
        "golang.org/x/net/html's tokenizer for reading the result.")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py --prop %s --tier quick" % i,
                            "thorough_cmd": "python3 run.py --prop %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEFAULT), "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "the check is not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
