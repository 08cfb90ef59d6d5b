"""C22: the command, with a server on the loopback network."""
import gzip, http.server, itertools, os, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import core, families as F
from gen import cfg
from sessions import Names

BADLD = '<script type="application/ld+json">{"@context": </script>'


class Server:
    """Serves pages by path; some of them badly."""

    def __init__(self):
        self.pages = {}
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                p = outer.pages.get(self.path.split("#")[0])
                if p is None:
                    self.send_response(404)
                    self.send_header("Content-Length", "0")
                    self.end_headers()
                    return
                kind, body = p
                if kind == "redirect":
                    self.send_response(302)
                    self.send_header("Location", body.decode())
                    self.send_header("Content-Length", "0")
                    self.end_headers()
                    return
                if kind == "drop":
                    self.close_connection = True
                    self.connection.close()
                    return
                self.send_response(203 if kind == "other" else 200)
                if kind == "gzip" and "gzip" in self.headers.get("Accept-Encoding", ""):
                    body = gzip.compress(body)
                    self.send_header("Content-Encoding", "gzip")
                self.send_header("Content-Type", "text/html; charset=utf-8")
                if kind == "chunked":
                    self.send_header("Transfer-Encoding", "chunked")
                    self.end_headers()
                    for i in range(0, len(body), 7):
                        part = body[i:i + 7]
                        self.wfile.write(b"%x\r\n%s\r\n" % (len(part), part))
                    self.wfile.write(b"0\r\n\r\n")
                    return
                self.send_header("Content-Length", str(len(body) + (100 if kind == "short" else 0)))
                self.end_headers()
                self.wfile.write(body)
                if kind == "short":
                    self.close_connection = True

            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, *a):
                pass
        self.srv = S(("127.0.0.1", 0), H)
        self.base = "http://127.0.0.1:%d" % self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def stop(self):
        self.srv.shutdown()
        self.srv.server_close()


def flags(r):
    """A selection of flags, the last of a kind counts."""
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3])):
        d = r.choice(["-", "--"])
        if r.random() < .65:
            n, v = r.choice(["o", "output"]), r.choice(["html", "html", "html", "text", "text", "xml", "HTML", "", "htm"])
            out += [d + n + "=" + v] if r.random() < .5 else [d + n, v]
        else:
            n = r.choice(["v", "verbose"])
            out.append(d + n + r.choice(["", "", "", "=true", "=false", "=0", "=1"]))
    if r.random() < .1:
        out.append("--")
    return out


def run(ck):
    binary = core.build_cli(ck.scratch)
    srv = Server()
    try:
        body(ck, binary, srv)
    finally:
        srv.stop()


def body(ck, binary, srv):
    # a port nobody listens on
    closed = Server()
    closed.stop()
    urls = []          # (url, fetched, html, logs)
    n = ck.n(60, 400)
    ws = F.wild(ck, n, "cli", cfg(thr=[500]), budget=900) + F.excerpts(ck, 10)
    for i, w in enumerate(ws):
        r = ck.rng("cli", i)
        html, logs = w["args"]["html"], False
        if r.random() < .3:
            html, logs = html.replace("</head>", BADLD + "</head>", 1), True
        k = r.random()
        path = r.choice(["/p%d", "/a/b/p%d.html", "/p%d?x=1&y=%%20z", "/p%d?q=%%C3%%A9"]) % i
        if k < .7:
            srv.pages[path] = (r.choice(["ok", "ok", "chunked", "gzip", "other"]), html.encode())
            urls.append((srv.base + path, True, html, logs))
        elif k < .8:
            srv.pages[path] = ("ok", html.encode())
            srv.pages["/r%d" % i] = ("redirect", path.encode())
            if r.random() < .4:
                srv.pages["/r%d" % i] = ("redirect", b"/s/s%d" % i)
                srv.pages["/s/s%d" % i] = ("redirect", path.encode() if r.random() < .5 else srv.base.encode() + path.encode())
            urls.append((srv.base + "/r%d" % i, True, html, logs))
        elif k < .9:
            srv.pages[path] = ("short", html.encode())
            urls.append((srv.base + path, False, "", False))
        else:
            srv.pages[path] = ("drop", b"")
            urls.append((srv.base + path, False, "", False))
    for j, html in enumerate(["", "<html><body></body></html>", "<p>no body at all</p>", "<html><head><title>x</title></head></html>", "<body><p>   </p></body>", "plain text",
                              "<html><body><p>Short article.</p></body></html>", "<html><body><p>100%% é %s %d \\n</p></body></html>"]):
        path = "/odd%d" % j
        srv.pages[path] = ("ok", html.encode())
        urls.append((srv.base + path, True, html, False))
    # pages of some size
    for j, (k, size) in enumerate([("ok", 70000), ("chunked", 70000), ("gzip", 300000), ("ok", 1200000), ("ok", 5000000)]):
        r = ck.rng("big", j)
        para = "<p>" + "Rain falls on the hill, and tea is served in the hall, at number %d. " * 20 + "</p>"
        html = "<html><body><article>" + "".join(para.replace("%d", str(q)) for q in range(10))
        if size > 500000:       # the bulk of it in a comment: little to extract, but the end counts
            html += "<!--" + "x" * size + "-->" + para + "</article><p>The end, as it were.</p></body></html>"
        else:
            html += "<p>" + "word and, " * (size // 10) + "</p>" + para + "</article></body></html>"
        srv.pages["/big%d" % j] = (k, html.encode())
        urls.append((srv.base + "/big%d" % j, True, html, False))
    bad = [closed.base + "/x", "nope", "http://", "ftp://127.0.0.1/x", "http://127.0.0.1:99999/", "http://[::1", "%zz", "http://127.0.0.1:0/", "://x", " "]
    known = [u for u in urls if u[1]]
    obs = ck.observe("extract", [{"html": h, "uri": u, "opts": {}} for u, _, h, _ in known])
    names = Names()
    pages = {}
    for (u, f, h, logs), o in zip(known, obs):
        ok = o["out"] == "ok"
        pages[u] = {"url": u, "fetch": "page", "out": o["out"] if ok else "err", "html": names(o["html"]) if ok else "", "text": names(o["text"]) if ok else "",
                    "logs": logs and o["out"] != "rejected"}
    for u, f, h, logs in urls:
        if not f:
            pages[u] = {"url": u, "fetch": "none", "out": "", "html": "", "text": "", "logs": False}
    runs = []
    for i in range(ck.n(700, 6000)):
        r = ck.rng("run", i)
        k = r.random()
        if k < .06:
            rest = r.choice([[], [""], ["", urls[0][0]]])
        elif k < .2:
            rest = [r.choice(bad)]
        else:
            rest = [r.choice(urls)[0]]
        if rest and r.random() < .15:
            rest = rest + r.choice([["extra"], ["-o", "html"], [urls[1][0]], ["-v"]])
        runs.append(flags(r) + rest)
    for j in range(5):
        runs += [[srv.base + "/big%d" % j], ["-o", "html", srv.base + "/big%d" % j]]
    # every way to ask for the output, on one page
    u = next(u for u in pages if pages[u]["out"] == "ok")
    for fl in itertools.product(["", "-o", "--o", "-output", "--output"], ["", "text", "html", "md"], ["", "-v", "--verbose", "-v=false"]):
        for eq in (True, False):
            a = ([fl[0] + "=" + fl[1]] if eq else [fl[0], fl[1]]) if fl[0] else []
            runs.append(a + ([fl[2]] if fl[2] else []) + [u])
    env = {k: v for k, v in os.environ.items() if "proxy" not in k.lower()}

    def one(args):
        p = subprocess.run([binary] + args, capture_output=True, env=env, timeout=60)
        return p.returncode, p.stdout, p.stderr
    with ThreadPoolExecutor(core.CPUS) as ex:
        res = list(ex.map(one, runs))
    specs = []
    for args, (rc, so, se) in zip(runs, res):
        try:
            out = names(so.decode())
        except UnicodeDecodeError:
            out = "undecodable"
        specs.append({"args": args, "pages": [pages[a] for a in dict.fromkeys(args) if a in pages],
                      "obs": {"status": rc, "stdout": out, "message": so.strip() != b"" or se.strip() != b"", "logged": rc == 0 and se != b"" or rc == 1 and se.strip() != b"" and so.strip() != b""}})
    seen = 0
    for line in ck.judge("Cli", specs):
        w = line.split(" ", 2)
        if w[0] in ("GOOD", "BAD"):
            seen += 1
        if w[0] == "BAD":
            i = int(w[1]) - 1
            pg = [x for x in runs[i] if x in pages]
            html = next((h for u, f, h, l in urls if pg and u == pg[0]), None)
            ck.violation("the command: " + w[2].split("]")[0].strip("["), "cli", {"args": runs[i], "html": html},
                         {"status": res[i][0], "stdout": res[i][1].decode("utf-8", "replace")[:3000], "stderr": res[i][2].decode("utf-8", "replace")[:3000]}, w[2], specs[i], "Cli")
    if seen != len(specs):
        raise RuntimeError("%d of %d runs without a verdict" % (len(specs) - seen, len(specs)))
    ck.traces += seen
    ck.evals += seen
    ck.extra["exits"] = {str(k): sum(x[0] == k for x in res) for k in {x[0] for x in res}}
    ck.sample({"arguments": runs[0]})
    ck.sample({"arguments": runs[-1]})
