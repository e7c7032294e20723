"""P30: the on-disk cache never serves wrong or partial content

The backend answers every request with a body of its own (a version), so that the source of each delivered body is known.
Oracle: a delivered body is complete and was sent completely by the backend for the same path and entity tag, for this or an
earlier request; and every entry in the cache directory is such a body."""
import hashlib
import os
import random
import subprocess
import threading
import time

from vf import backends, build, check, http, server


def mkbody(r, n, tag):
    h = tag + b"|"
    return (h + r.randbytes(max(0, n - len(h))))[:n] if n >= len(h) else h[:n]


class Env:
    def __init__(self, chk, name, so=None, workers=2):
        self.chk, self.name = chk, name
        self.dir = os.path.join(chk.scratch, name + "-cache")
        os.makedirs(self.dir)
        self.ctl = os.path.join(chk.scratch, name + "-ctl")
        self.fault(False)
        self.plan = {}
        self.lock = threading.Lock()
        self.full = {}      # (path, etag) -> list of bodies sent completely
        self.stub = backends.HttpStub(lambda rec: self.plan[rec.get(b"X-Plan")], backlog=512)
        chk.cleanup(self.stub.stop)
        self.doc = os.path.join(chk.scratch, name + "-doc")
        os.makedirs(self.doc + "/f")
        self.conf = """
docroot "%s";
if req.path =^ "/p/" { proxy "%s"; cache.disk.etag "%s"; }
else if req.path =^ "/z/" { proxy "%s"; deflate; cache.disk.etag "%s"; }
else if req.path =^ "/f/" { static; deflate; cache.disk.etag "%s"; }
else { static; cache.disk.etag "%s"; }
""" % (self.doc, self.stub.addr(), self.dir, self.stub.addr(), self.dir, self.dir, self.dir)
        self.so = so
        self.workers = workers
        self.srv = self.start()

    def fault(self, on):
        with open(self.ctl, "w") as f:
            f.write("1" if on else "0")

    def start(self):
        return server.Server(self.chk, self.conf, modules=["mod_proxy", "mod_cache_disk_etag", "mod_deflate"], setup="io.timeout 60;", workers=self.workers, name=self.name, leaks=True,
                             preload=self.so, env={"VF_WFAULT_DIR": self.dir, "VF_WFAULT_CTL": self.ctl} if self.so else None).start()


def qetag(r, j):
    k = r.random()
    if k < 0.5:
        t = b"e%d" % j
    elif k < 0.6:
        t = b"~" * r.randrange(1, 4) + b"??>>%d" % j   # '/' and '+' in base64
    elif k < 0.7:
        t = b"x" * r.choice([100, 150, 185, 200, 400]) + b"%d" % j   # too long for a file name
    elif k < 0.8:
        t = b"../../x%d" % j
    else:
        t = bytes(r.choice(b"abcXYZ/-_.~?>") for _ in range(6)) + b"%d" % j
    return r.choice([b'"%s"', b'W/"%s"', b'"%s"', b'%s']) % t


def rpath(r, j):
    return r.choice([b"/p/a%d", b"/p/d%d/", b"/p/d/e/f%d.html", b"/p/a%d-ZTE", b"/p/q/%%2e%%2e/x%d", b"/p/sp%%20ace%d", b"/p/%%c3%%a4%d", b"/p/" + b"l" * 120 + b"%d"]) % j


def one(e, i, crash=False):
    chk = e.chk
    r = random.Random("%s/%d/%d" % (e.name, chk.seed, i))
    # a small set of keys, shared by concurrent requests
    rk = random.Random("%s/key/%d/%d" % (e.name, chk.seed, i // 12 * 7 + r.randrange(0, 4)))
    j = rk.randrange(0, 1000)
    path = rpath(rk, j)
    etag = qetag(random.Random(j * 4 + r.randrange(3)), j) if r.random() < 0.9 else None
    if etag is not None and r.random() < 0.3:
        etag = etag[:-1] + r.choice([b"a", b"b"]) + etag[-1:]
    n = r.choice([0, 1, 100, 5000, 16384, 65535, 65536, 65537, 70000, 131072, 200000, 400000])
    sid = b"i%d.%d" % (i, time.time_ns())
    body = mkbody(r, n, sid)
    status = r.choice([200] * 10 + [404, 203, 302])
    framing = r.choice(["length", "length", "chunked", "eof", "abort", "abort-chunk"])
    method = r.choice([b"GET"] * 12 + [b"HEAD", b"POST"])
    dup = etag is not None and r.random() < 0.05
    leave = r.random() < 0.12
    head = b"HTTP/1.1 %d X\r\nContent-Type: text/plain\r\nX-Plan: %s\r\n" % (status, sid)
    if etag is not None:
        head += b"ETag: " + etag + b"\r\n"
    if dup:
        head += b"ETag: \"dup\"\r\n"
    complete = not framing.startswith("abort")
    if framing == "length":
        acts = [("send", head + b"Content-Length: %d\r\n\r\n" % n)]
    elif framing == "abort":
        acts = [("send", head + b"Content-Length: %d\r\n\r\n" % (n + r.randrange(1, 1000)))]
    elif framing == "eof":
        acts = [("send", head + b"\r\n")]
    else:
        acts = [("send", head + b"Transfer-Encoding: chunked\r\n\r\n")]
    if method != b"HEAD":
        p = 0
        while p < n:
            k = min(n - p, r.choice([1, 1000, 16384, 65536, 100000, 400000]))
            d = body[p:p + k]
            acts.append(("send", b"%x\r\n" % k + d + b"\r\n" if "chunk" in framing else d))
            p += k
            if len(acts) < 8 and r.random() < 0.4:
                acts.append(("sleep", r.choice([0.001, 0.01, 0.03])))
        if framing == "chunked":
            acts.append(("send", b"0\r\n\r\n"))
        elif framing == "abort-chunk":
            acts.append(("send", r.choice([b"", b"5\r\nab", b"zz\r\n", b"0\r\n"])))
    acts.append(r.choice([("close",), ("rst",)]) if not complete else ("close",))
    e.plan[sid] = acts
    key = (path, etag)
    if complete and method == b"GET" and status == 200:
        with e.lock:
            e.full.setdefault(key, []).append(body)
    wit = {"path": path.decode(), "etag": (etag or b"").decode(), "method": method.decode(), "status": status, "framing": framing, "length": n, "left early": leave, "plan": [a[0] for a in acts]}
    req = method + b" " + path + b" HTTP/1.1\r\nHost: h\r\nX-Plan: " + sid + b"\r\n" + (b"Content-Length: 2\r\n\r\nxx" if method == b"POST" else b"\r\n")
    x = None
    try:
        c = http.Conn(port=e.srv.port, timeout=30)
        try:
            c.send(req)
            if leave:
                time.sleep(r.choice([0, 0.002, 0.02]))
                c.rst()
            else:
                x = c.read_response(method.decode())
        finally:
            c.close()
    except (http.Closed, http.Timeout, http.ProtoError, OSError) as ex:
        if complete and not crash:
            return ("no-answer", "complete response not delivered: %s" % ex, wit)
        chk.ok(1, outcome="cut, backend aborted" if not complete else "server killed")
        return
    if x is None:
        return
    wit["response framing"] = str(x.framing)
    if method == b"HEAD":
        if x.status != status:
            return ("status", "HEAD: status %d instead of %d" % (x.status, status), wit)
        chk.ok(1, outcome="head")
        return
    if x.status != status:
        return ("status", "status %d instead of %d" % (x.status, status), wit)
    cacheable = method == b"GET" and status == 200 and etag is not None and not dup
    if x.body == body and (complete or framing == "abort-chunk"):
        # (a body cut by the backend must not look complete; with the terminating chunk cut it can't be told from here)
        with e.lock:
            hit = cacheable and body in e.full.get(key, [])     # (tiny bodies are the same for several requests)
        if not complete and x.complete and not hit:
            return ("cut", "the backend aborted its response, but it was delivered as complete", wit)
        chk.ok(1, outcome="from backend")
        return
    with e.lock:
        old = list(e.full.get(key, []))
    if cacheable and x.body in old:
        chk.ok(1, outcome="hit" if complete else "hit although backend aborted")
        e.hits = getattr(e, "hits", 0) + 1
        return
    if status >= 400 and n == 0:
        return
    if not x.complete:
        if complete and not crash:
            return ("cut", "response was cut at %d of %d bytes" % (len(x.body), n), wit)
        chk.ok(1, outcome="cut, backend aborted")
        return
    where = [k for k, v in e.full.items() if any(b.startswith(x.body[:40]) for b in v)][:2] if x.body else []
    wit["body belongs to"] = repr(where)
    return ("wrong", "%s %s etag %s: %d bytes delivered which were never sent completely for this path and tag (%r)" % (method.decode(), path.decode(), etag, len(x.body), x.body[:30]), wit)


def judge_dir(e, when):
    """once nothing is being stored any more, every file holds a complete body (names are the module's own business)"""
    chk = e.chk
    known = {hashlib.sha1(b).digest() for v in e.full.values() for b in v}
    t = time.time() + 10
    while True:
        bad, good = [], 0
        for d, _, fs in os.walk(os.fsencode(e.dir)):
            if d.startswith(os.fsencode(e.dir) + b"/f"):
                continue
            for f in fs:
                try:
                    with open(os.path.join(d, f), "rb") as h:
                        b = h.read()
                except OSError:
                    bad.append((f, 0))
                    continue
                if hashlib.sha1(b).digest() in known:
                    good += 1
                else:
                    bad.append((f, len(b)))
        if not bad or time.time() > t:
            break
        time.sleep(0.2)
    chk.ok(good, entry="complete")
    if bad:
        chk.violation("entry", "%s: %d files in the cache directory hold no complete body of any response, e.g. %r (%d bytes)" % (when, len(bad), bad[0][0][:100], bad[0][1]), {"files": repr(bad[:10])})


def storm(e, count, base=0, crash=False):
    chk = e.chk

    def w(i):
        v = one(e, i, crash)
        if v and v[0] == "no-answer":
            v2 = one(e, i, crash)
            if not v2:
                return chk.inconcl("%s only once" % v[1])
            v = v2
        if v:
            chk.violation(v[0], v[1], v[2])
    check.parallel(16, w, range(base, base + count))


def statics(e):
    """compressed variants of static files that change: the tag changes with them"""
    chk = e.chk
    import zlib

    def w(i):
        r = random.Random("st/%d/%d" % (chk.seed, i))
        fn = "s%d.txt" % i
        for v in range(3):
            content = (b"%d.%d " % (i, v)) * r.choice([1, 500, 10000, 30000])
            tmp = os.path.join(e.doc, "f", fn + ".new")
            with open(tmp, "wb") as f:
                f.write(content)
            os.utime(tmp, (1700000000 + v * 10, 1700000000 + v * 10))
            os.rename(tmp, os.path.join(e.doc, "f", fn))
            for _ in range(3):
                enc = r.choice(["", "gzip", "deflate", "gzip"])
                c = http.Conn(port=e.srv.port, timeout=30)
                try:
                    c.send(("GET /f/%s HTTP/1.1\r\nHost: h\r\n%sConnection: close\r\n\r\n" % (fn, "Accept-Encoding: %s\r\n" % enc if enc else "")).encode())
                    x = c.read_response("GET")
                except (http.Closed, http.Timeout, http.ProtoError) as ex:
                    chk.violation("static-no-answer", "compressed static file: %s" % ex, {"file": fn, "enc": enc, "len": len(content)})
                    return
                finally:
                    c.close()
                ce = x.get(b"Content-Encoding") or b""
                try:
                    b = zlib.decompress(x.body, 31) if ce == b"gzip" else zlib.decompress(x.body, -15) if ce == b"deflate" else x.body
                except zlib.error as ex:
                    b = b"undecodable: %s" % str(ex).encode()
                if x.status != 200 or b != content:
                    chk.violation("static", "version %d of a static file (%s): status %d, %d bytes after decoding instead of %d" % (v, enc or "identity", x.status, len(b), len(content)), {"file": fn, "enc": enc, "got": repr(b[:60])})
                    return
                chk.ok(1, static=enc or "identity")
    check.parallel(12, w, range(chk.n(150)))


def run(chk):
    build.build("asan")
    only = chk.args.only.split(",") if chk.args.only else None
    if not only or "plain" in only:
        e = Env(chk, "plain")
        storm(e, chk.n(3000))
        judge_dir(e, "after the storm")
        chk.count("cache", "hits", getattr(e, "hits", 0))
        if not chk.violations and getattr(e, "hits", 0) < 20:
            chk.violation("never-hit", "only %d responses came from the cache" % getattr(e, "hits", 0), {})
        statics(e)
        # directory gone: still served
        os.rename(e.dir, e.dir + ".old")
        with open(e.dir, "w") as f:
            f.write("x")
        storm(e, chk.n(60), base=100000)
        os.unlink(e.dir)
        os.rename(e.dir + ".old", e.dir)
        judge_dir(e, "end")
        e.srv.stop()
        e.srv.verify("plain", expect_alive=False)
    if not only or "faults" in only:
        so = os.path.join(chk.scratch, "wfault.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(os.path.dirname(backends.__file__), "wfault.c"), "-ldl"], check=True)
        e = Env(chk, "faults", so=so)
        e.fault(True)
        storm(e, chk.n(2000))
        e.fault(False)
        storm(e, chk.n(600), base=0)
        judge_dir(e, "after write errors")
        e.srv.stop()
        e.srv.verify("faults", expect_alive=False)
    if not only or "crash" in only:
        e = Env(chk, "crash")
        for k in range(chk.n(8, 80)):
            stop = threading.Event()

            def killer():
                stop.wait(random.Random("%d/k/%d" % (chk.seed, k)).uniform(0.1, 0.8))
                e.srv.kill()
            t = threading.Thread(target=killer)
            t.start()
            storm(e, 80, base=k * 12 % 60, crash=True)
            t.join()
            e.srv = e.start()
            chk.count("crash", "kill")
        storm(e, chk.n(150))
        e.srv.stop()
        e.srv.verify("crash", expect_alive=False)


if __name__ == "__main__":
    c = check.Check("P30", rule="one evaluation = one response or cache entry traced back to a body that the backend sent completely for the same path and entity tag; distinct = outcome classes (hit, from backend, cut, ...) under plain load, write faults and kill -9")
    check.run(c, run, min_evals=500)
