"""Building and driving the harness, running TLC, recording evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO") or "/repo"     # another tree only to try out changes
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself could not be carried out: no verdict."""


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
    env.setdefault("HOME", "/root")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    return env


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)


def build_harness(scratch, race=False):
    src = scratch.path("harness-src")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        # the harness resolves the library's own dependencies as the library does
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
        with open(os.path.join(src, "go.mod")) as f:
            mod = f.read()
        with open(os.path.join(src, "go.mod"), "w") as f:
            f.write(mod.replace("=> /repo\n", "=> %s\n" % REPO))
    out = scratch.path("harness-race" if race else "harness-bin")
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
    p = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("building the harness failed:\n" + p.stdout + p.stderr)
    return out


def build_cli(scratch):
    out = scratch.path("cli-bin")
    p = subprocess.run(["go", "build", "-o", out, "./cmd/readability"], cwd=REPO, env=go_env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("building the command failed:\n" + p.stdout + p.stderr)
    return out


def _run_shard(binary, cases, results, errors, case_limit):
    todo = list(cases)
    env = dict(os.environ, HARNESS_CASE_LIMIT=case_limit, GOMEMLIMIT="2GiB", GORACE="halt_on_error=1 exitcode=66")
    while todo:
        data = "".join(json.dumps(c) + "\n" for c in todo)
        try:
            p = subprocess.run([binary], input=data.encode(), capture_output=True, env=env, timeout=600)
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = -1, e.stdout or b"", b"timeout"
        got = 0
        for line in so.split(b"\n"):
            if not line.strip():
                continue
            try:
                r = json.loads(line)
            except ValueError:
                break
            results[r["id"]] = r["obs"]
            got += 1
        if rc == 0 and got == len(todo):
            return
        if rc == 3:            # the last one reported hung; go on behind it
            todo = todo[got:]
            continue
        if rc == 4 or rc == 0:
            errors.append("harness failed (%s): %s" % (rc, se.decode("utf-8", "replace")[-2000:]))
            return
        if got >= len(todo):
            if rc == 66:
                results[todo[-1]["id"]] = {"out": "race", "msg": se.decode("utf-8", "replace")[:6000]}
            return
        text = se.decode("utf-8", "replace")
        fatal = "goroutine stack exceeds" in text or "fatal error:" in text or "panic:" in text or rc == 66 or "DATA RACE" in text
        if not fatal:
            errors.append("harness died (%s): %s" % (rc, text[-2000:]))
            return
        results[todo[got]["id"]] = {"out": "race" if rc == 66 else "crash", "msg": text[:6000]}
        todo = todo[got + 1:]


def run_harness(binary, cases, shards=CPUS, case_limit="20s"):
    """cases: list of {"id", "op", "args"}; yields {id: observation}."""
    results, errors, threads = {}, [], []
    shards = max(1, min(shards, len(cases)))
    for i in range(shards):
        part = cases[i::shards]
        t = threading.Thread(target=_run_shard, args=(binary, part, results, errors, case_limit))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()
    if errors:
        raise CheckError("; ".join(errors[:3]))
    missing = [c["id"] for c in cases if c["id"] not in results]
    if missing:
        raise CheckError("no observation for cases %s" % missing[:5])
    bad = [r for r in results.values() if r.get("out") == "harness-error"]
    if bad:
        raise CheckError("harness error: %s" % bad[0].get("msg"))
    return results


class TlcResult:
    pass


def run_tlc(scratch, module, cfg=None, env=None, workers=CPUS, extra=(), timeout=800, name=None, heap="6g", ok_codes=(0,)):
    """Runs TLC on a module of /verif/spec (copied into the scratch directory)."""
    name = name or module
    d = scratch.path("tlc-" + name)
    if not os.path.isdir(d):
        shutil.copytree(os.path.join(VERIF, "spec"), d)
    tmp = scratch.path("tmp-" + name)
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + tmp,
           "-Dtlc2.TLC.ide=none", "-cp", TLA_JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", scratch.path("meta-" + name),
           "-config", cfg or (module + ".cfg"), "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    log = scratch.path("tlc-%s.log" % name)
    with open(log, "wb") as f:
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC %s: time limit" % name)
    r = TlcResult()
    r.rc, r.wall = rc, time.time() - t0
    with open(log, encoding="utf-8", errors="replace") as f:
        r.out = f.read()
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
    r.depth = int(m[-1]) if m else 0
    r.lines = []
    for line in r.out.split("\n"):
        s = line.strip()
        if s.startswith('"') and s.endswith('"'):
            try:
                r.lines.append(json.loads(s))
            except ValueError:
                r.lines.append(s[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
    if rc not in ok_codes:
        errs = re.findall(r"^Error:.*(?:\n(?!\"|State ).*){0,6}", r.out, re.M)
        if os.environ.get("VERIF_KEEP_LOG"):
            shutil.copy(log, os.environ["VERIF_KEEP_LOG"])
        raise CheckError("TLC %s ended with %s:\n%s" % (name, rc, "\n".join(errs)[:2500] if errs else r.out[-3000:]))
    return r
