#!/usr/bin/env python3
"""trybugs.py [ID...]: runs the check of each planted bug's property against a copy of /repo with the bug."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(S))


def one(i):
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="try-")
    try:
        repo = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        p = subprocess.run(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=repo, capture_output=True, text=True)
        if p.returncode:
            return i, prop, "does not apply"
        env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=os.path.join(w, "out"))
        p = subprocess.run([sys.executable, "run.py", "--prop", prop], cwd=V, env=env, capture_output=True, text=True)
        return i, prop, {0: "MISSED", 1: "caught"}.get(p.returncode, "error") + ("" if p.returncode < 2 else p.stdout[-300:]) + " " + \
            (" | ".join(l.strip() for l in p.stdout.split("\n") if l.startswith("  "))[:160])
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
