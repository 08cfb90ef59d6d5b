#!/usr/bin/env python3
"""plant.py SPEC.py: tries out planted bugs and keeps those that qualify under seeded/.
SPEC.py defines BUGS = [dict(id, property, file, old, new, demo, needs, what)] (old/new may be lists of (file, old, new))."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves as it should
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
DEMO_DIR="$d" GOFLAGS=-mod=mod timeout 120 go test -count=1 -timeout 100s -overlay "$t/overlay.json" -run TestDemo .
'''
HEAD = '''package readability

import (
	"strings"
	"testing"
)

var _ = strings.Contains

func parse(t *testing.T, src string, opts ...Option) *Result {
	t.Helper()
	r, err := New(src, "http://host.example/dir/page.html", opts...)
	if err != nil {
		t.Fatal(err)
	}
	res, err := r.Parse()
	if err != nil {
		t.Fatal(err)
	}
	return res
}

const lorem = "Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et dolore magna aliqua. "

'''


GOLDEN = HEAD.replace('import (\n', 'import (\n\t"encoding/json"\n\t"os"\n') + '''// TestDemo compares what is extracted from page.html with what should be.
func TestDemo(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("DEMO_DIR") + "/page.html")
	if err != nil {
		t.Fatal(err)
	}
	r, err := New(string(b), "http://host.example/dir/page.html"@OPTS@)
	var got any
	if err != nil {
		got = "rejected"
	} else if res, err := r.Parse(); err != nil {
		got = "error"
	} else {
		got = res
	}
	j, _ := json.MarshalIndent(got, "", " ")
	f := os.Getenv("DEMO_DIR") + "/expected.json"
	if os.Getenv("DEMO_WRITE") != "" {
		os.WriteFile(f, j, 0o644)
		return
	}
	want, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	if string(want) != string(j) {
		t.Fatalf("expected %s\\ngot %s", want, j)
	}
}
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def tests_pass(repo):
    p = sh("GOFLAGS=-mod=mod go vet . >/dev/null 2>&1; go test -count=1 -timeout 200s ./... 2>&1 | tail -30", repo)
    return "FAIL" not in p.stdout and "ok" in p.stdout, p.stdout


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        for b in bugs:
            if only and b["id"] not in only:
                continue
            repo = os.path.join(work, b["id"])
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            edits = b.get("edits") or [(b.get("file", "readability.go"), b["old"], b["new"])]
            bad = None
            for f, old, new in edits:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "%d occurrences in %s of %r" % (s.count(old), f, old[:60])
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(b["id"], "REJECTED", bad)
                continue
            diff = sh("git diff", repo).stdout
            out = os.path.join(work, "out-" + b["id"])
            os.makedirs(out)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(b.get("script") or DEMO)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            for f, text in b.get("files", {}).items():
                open(os.path.join(out, f), "w").write(text)
            if "demo" in b:
                h = HEAD
                for i in b.get("imports", ()):
                    h = h.replace('\t"strings"\n', '\t"strings"\n\t"%s"\n' % i)
                open(os.path.join(out, "demo_test.go.txt"), "w").write(h + b["demo"])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            if "html" in b:
                open(os.path.join(out, "page.html"), "w").write(b["html"])
                open(os.path.join(out, "demo_test.go.txt"), "w").write(GOLDEN.replace("@OPTS@", ", " + b["opts"] if b.get("opts") else ""))
                q = sh("DEMO_WRITE=1 bash %s/demo.sh" % out, "/repo")
                if q.returncode != 0:
                    print(b["id"], "REJECTED: no expectation", q.stdout[-800:], q.stderr[-300:])
                    continue
            ok, log = tests_pass(repo)
            if not ok:
                print(b["id"], "REJECTED: the tests notice\n", log[-600:])
                continue
            p = sh("bash %s/demo.sh" % out, repo)
            if p.returncode == 0:
                print(b["id"], "REJECTED: the demonstration passes with the change")
                continue
            if "build failed" in p.stdout + p.stderr or "setup failed" in p.stdout + p.stderr:
                print(b["id"], "REJECTED: demo does not build", p.stdout[-800:], p.stderr[-500:])
                continue
            q = sh("bash %s/demo.sh" % out, "/repo")
            if q.returncode != 0:
                print(b["id"], "REJECTED: the demonstration fails without the change", q.stdout[-800:], q.stderr[-300:])
                continue
            dst = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            print(b["id"], "kept")
            shutil.rmtree(repo, ignore_errors=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
