"""P21: descriptors, connections, temporary files, backend connections and memory of finished requests are given back."""
import glob
import mmap
import os
import socket
import ssl
import struct
import subprocess
import threading
import time

from vf import backends, build, check, http, server

CA = os.path.join(build.REPO, "tests/ca")
BIG = 3000000


class Backend:
    """stubs for the three protocols; /<kind>/<behaviour>"""

    def __init__(self, chk):
        self.released = []
        self.n = 0
        self.lock = threading.Lock()
        self.held = {}
        self.stubs = {k: cls(self.handler(k), backlog=1024) for k, cls in backends.KINDS.items()}
        for s in self.stubs.values():
            chk.cleanup(s.stop)

    def handler(self, kind):
        def h(rec):
            t = rec.target if kind == "proxy" else rec.env.get(b"REQUEST_URI", b"")
            what = (t or b"").rsplit(b"/", 1)[-1].partition(b"?")[0].decode()
            http_ = kind == "proxy"

            def head(n=None):
                o = b"HTTP/1.1 200 OK\r\n" if http_ else b"Status: 200 OK\r\n"
                if n is not None:
                    o += b"Content-Length: %d\r\n" % n
                return o + b"Content-Type: text/plain\r\n\r\n"
            end = [("end",)] if kind == "fastcgi" else [("close",)]
            if what == "small":
                return [("send", head(5) + b"hello")] + end
            if what == "close":
                return [("close",)]
            if what == "rst":
                return [("rst",)]
            if what == "mid":
                return [("send", head(100000) + b"x" * 5000), ("sleep", 0.002), ("close",)]
            if what == "midrst":
                return [("send", head(100000) + b"x" * 5000), ("sleep", 0.002), ("rst",)]
            if what == "garbage":
                return [("send", b"\x00\xff\x01 not a response\r\n\r\n"), ("raw", b"\x07" * 30), ("close",)]
            if what == "big":
                return [("send", head(None) + b"y" * 400000)] + end
            if what.startswith("hang"):
                with self.lock:
                    self.n += 1
                    k = (kind, self.n)

                def gone():
                    with self.lock:
                        self.held.pop(k, None)
                        self.released.append((k, time.time()))
                with self.lock:
                    self.held[k] = time.time()
                pre = [("send", head(1000) + b"z" * 10)] if what == "hangr" else []
                return pre + [("hang", 60, gone)]
            return [("send", head(2) + b"ok")] + end
        return h


class Env:
    def __init__(self, chk, be, variant, workers=2, leaks=False):
        self.chk = chk
        self.be = be
        d = os.path.join(chk.scratch, "doc-%s-%d" % (variant, id(self)))
        os.makedirs(d + "/cache")
        with open(d + "/big.bin", "wb") as f:
            f.write(b"B" * BIG)
        with open(d + "/a.txt", "w") as f:
            f.write("hello\n" * 500)
        with open(d + "/users", "w") as f:
            f.write("u:p\n")
        with open(d + "/err.lua", "w") as f:
            f.write('function handle(vr)\n  if vr.req.uri.path == "/lua/err" then error("x") end\n  vr.resp.status = 200\n  vr.resp.headers["X-A"] = "b"\n  vr.out:add("lua")\n  return lighty.HANDLER_GO_ON\nend\nactions = handle\n')
        self.dead = server.free_port()
        s = be.stubs
        self.tls = server.free_port()
        self.tls2 = server.free_port()
        mods = ["mod_proxy", "mod_fastcgi", "mod_scgi", "mod_deflate", "mod_dirlist", "mod_auth", "mod_status", "mod_limit", "mod_cache_disk_etag", "mod_redirect", "mod_rewrite", "mod_accesslog",
                "mod_openssl", "mod_gnutls", "mod_lua", "mod_progress", "mod_throttle", "mod_expire", "mod_userdir", "mod_vhost"]
        conf = """
docroot "@D@"; progress.track;
env.set "E" => "x%{req.path}";
if req.path == "/status" { status.info; }
else if req.path =^ "/lim/" { limit.con 3; limit.con_ip 2; limit.req_ip 50; proxy "@P@"; }
else if req.path =^ "/dead/" { proxy "127.0.0.1:@DEAD@"; }
else if req.path =^ "/nb/proxy/" { buffer_request_body false; proxy "@P@"; }
else if req.path =^ "/nb/fastcgi/" { buffer_request_body false; fastcgi "@F@"; }
else if req.path =^ "/nb/scgi/" { buffer_request_body false; scgi "@S@"; }
else if req.path =^ "/z/proxy/" { deflate; proxy "@P@"; }
else if req.path =^ "/proxy/" { proxy "@P@"; }
else if req.path =^ "/fastcgi/" { fastcgi "@F@"; }
else if req.path =^ "/scgi/" { scgi "@S@"; }
else if req.path =^ "/auth" { auth.plain [ "method" => "basic", "realm" => "r", "file" => "@D@/users" ]; }
else if req.path =^ "/redir" { redirect "http://x/%1"; }
else if req.path =^ "/cache/" { rewrite "^/cache/(.*)" => "/$1"; docroot "@D@"; cache.disk.etag "@D@/cache"; deflate; static; }
else if req.path =^ "/defl/" { alias "/defl/" => "@D@/"; deflate; static; }
else if req.path =^ "/lua/" { lua.handler "@D@/err.lua"; }
else if req.path =^ "/thr/" { alias "/thr/" => "@D@/"; io.throttle 400kbyte; static; }
else if req.path =$ "/" { dirlist; }
else { static; }
"""
        for k, v in (("@D@", d), ("@P@", s["proxy"].addr()), ("@F@", s["fastcgi"].addr()), ("@S@", s["scgi"].addr()), ("@DEAD@", str(self.dead))):
            conf = conf.replace(k, v)
        kw = {}
        if variant == "plain":
            so = be.so
            self.mfile = d + "/memcount"
            with open(self.mfile, "wb") as f:
                f.write(b"\0" * 4096)
            self.mm = mmap.mmap(os.open(self.mfile, os.O_RDWR), 4096)
            kw = dict(preload=so, env={"VF_MEMCOUNT": self.mfile})
        self.srv = server.Server(chk, conf, setup="""io.timeout 20; stat_cache.ttl 1;
openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "ca-file" => "%s/intermediate.crt" ];
gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem" ];
accesslog "%s/acc.log";""" % (self.tls, CA, CA, self.tls2, CA, d), modules=mods, workers=workers, variant=variant, leaks=leaks, name="srv-" + variant, **kw)
        self.srv.start().wait_port(self.tls).wait_port(self.tls2)
        self.port = self.srv.port
        time.sleep(0.2)
        self.base = self.nfds()

    def live(self):
        return struct.unpack("qq", self.mm[:16])

    def nfds(self):
        try:
            return len([v for v in self.srv.fds().values() if "acc.log" not in v and "error.log" not in v])
        except OSError:
            return 0

    def conn(self, **kw):
        return http.Conn(port=self.port, timeout=30, **kw)


def req(c, target, method="GET", headers=(), body=None, **kw):
    c.send(http.build_request(method, target, headers, body=body, **kw))


def full(target, method="GET", headers=(), body=None, **kw):
    def f(e, r):
        with e.conn() as c:
            try:
                req(c, target, method, headers, body, **kw)
                c.read_response(method)
            except (http.Closed, http.ProtoError):
                pass
    return f


def abort(target, how, read=0, method="GET", headers=(), body=None, cut=None, delay=0.0):
    """send (part of) a request, read some bytes, then close or reset"""
    def f(e, r):
        c = e.conn(rcvbuf=4096)
        raw = http.build_request(method, target, headers, body=body)
        k = cut
        if k == "rand":
            k = r.randrange(1, len(raw))
        elif k == "body":
            k = raw.index(b"\r\n\r\n") + 4 + (len(raw) - raw.index(b"\r\n\r\n") - 4) // 2
        try:
            c.send(raw[:k] if k else raw)
            if read:
                c.read_all(read)
        except (http.Closed, http.Timeout):
            pass
        if delay:
            time.sleep(delay)
        getattr(c, how)()
    return f


def pipeline_abort(e, r):
    c = e.conn()
    c.send(http.build_request("GET", "/a.txt") * 3 + http.build_request("GET", "/big.bin") + http.build_request("GET", "/proxy/big"))
    c.read_all(r.randrange(1, 60000))
    (c.rst if r.random() < 0.5 else c.close)()


def keepalive(e, r):
    c = e.conn()
    for t in ("/a.txt", "/fastcgi/small", "/nothing", "/proxy/small"):
        req(c, t)
        c.read_response("GET")
    c.close()


def bad(raw):
    def f(e, r):
        c = e.conn()
        try:
            c.send(raw)
            c.read_response("GET")
        except (http.Closed, http.ProtoError):
            pass
        c.close()
    return f


def tls(which, mode):
    def f(e, r):
        s = socket.create_connection(("127.0.0.1", e.tls if which == "openssl" else e.tls2), timeout=30)
        try:
            if mode == "garbage":
                s.sendall(r.choice([b"GET / HTTP/1.0\r\n\r\n" + b"x" * 300, os.urandom(300)]))
                s.settimeout(0.2)
                s.recv(100)
            elif mode == "hello":
                s.sendall(bytes.fromhex("16030100c8010000c40303") + os.urandom(60))
            elif mode == "empty":
                pass
            else:
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
                ctx.check_hostname = False
                ctx.verify_mode = ssl.CERT_NONE
                t = ctx.wrap_socket(s, server_hostname="test1.ssl")
                if mode == "hs":
                    t.close()
                    return
                t.sendall(http.build_request("GET", "/big.bin" if mode in ("abort", "rst") else "/a.txt", [("Connection", "close")]))
                n = 0
                while True:
                    d = t.recv(16384)
                    n += len(d)
                    if not d or (mode in ("abort", "rst") and n > 40000):
                        break
                if mode == "rst":
                    t.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                if mode == "unwrap":
                    t.unwrap()
                t.close()
        except (OSError, ssl.SSLError):
            pass
        finally:
            s.close()
    return f


def scenarios():
    S = {
        "static": full("/a.txt"), "static-head": full("/a.txt", "HEAD"), "static-range": full("/big.bin", headers=[("Range", "bytes=1-2,5-9,100-")]), "static-416": full("/a.txt", headers=[("Range", "bytes=99999-")]),
        "missing": full("/nothing"), "dirlist": full("/"), "redirect": full("/redir"), "auth-fail": full("/auth", headers=[("Authorization", "Basic dTp4")]), "auth-ok": full("/auth", headers=[("Authorization", "Basic dTpw")]),
        "options": full("*", "OPTIONS"), "deflate": full("/defl/a.txt", headers=[("Accept-Encoding", "gzip")]), "deflate-abort": abort("/defl/big.bin", "close", 1000, headers=[("Accept-Encoding", "gzip")]),
        "deflate-proxy-abort": abort("/z/proxy/big", "rst", 200, headers=[("Accept-Encoding", "gzip")]), "cache": full("/cache/a.txt", headers=[("Accept-Encoding", "gzip")]),
        "cache-abort": abort("/cache/big.bin", "close", 1, headers=[("Accept-Encoding", "gzip")]),
        "lua": full("/lua/x"), "lua-error": full("/lua/err"), "status": full("/status"), "status-text": full("/status?format=plain"),
        "static-close": abort("/big.bin", "close", 20000), "static-rst": abort("/big.bin", "rst", 20000), "static-norest": abort("/big.bin", "rst"), "throttle-abort": abort("/thr/big.bin", "close", 5000),
        "half-request": abort("/a.txt", "close", cut="rand"), "half-request-rst": abort("/a.txt", "rst", cut="rand"), "connect-only": lambda e, r: e.conn().close(),
        "pipeline-abort": pipeline_abort, "keepalive": keepalive,
        "dead": full("/dead/x"), "dead-post": full("/dead/x", "POST", body=b"x" * 70000), "limit": full("/lim/small"), "limit-abort": abort("/lim/big", "rst", 100),
        "progress-abort": abort("/proxy/big?X-Progress-Id=0123456789abcdef0123456789abcdef", "rst", 100, method="POST", body=b"x" * 1000, headers=[("X-Progress-ID", "0123456789abcdef0123456789abcdef")]),
        "progress": full("/proxy/small?X-Progress-Id=abc", "POST", body=b"x" * 1000, headers=[("X-Progress-ID", "0123456789abcdef0123456789abcdee")]),
        "bad": bad(b"GET\r\n\r\n"), "bad-414": bad(b"GET /" + b"x" * 9000 + b" HTTP/1.1\r\n\r\n"), "bad-413": bad(b"GET / HTTP/1.1\r\nHost: x\r\nA: " + b"y" * 70000 + b"\r\n\r\n"),
        "bad-chunked": bad(b"POST /proxy/small HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhelloXX"),
        "continue-abort": abort("/proxy/small", "rst", 25, method="POST", headers=[("Expect", "100-continue")], body=b"x" * 5000, cut="body"),
    }
    for k in ("proxy", "fastcgi", "scgi"):
        for b in ("small", "big", "close", "rst", "mid", "midrst", "garbage"):
            S["%s-%s" % (k, b)] = full("/%s/%s" % (k, b))
        S["%s-post" % k] = full("/%s/small" % k, "POST", body=b"p" * 200000)
        S["%s-post-chunked" % k] = full("/%s/small" % k, "POST", body=b"p" * 50000, chunked=[7000, 1, 30000])
        S["%s-abort" % k] = abort("/%s/big" % k, "rst", 3000)
        S["%s-post-half" % k] = abort("/%s/small" % k, "close", method="POST", body=b"p" * 200000, cut="body")
        S["%s-post-half-nb" % k] = abort("/nb/%s/small" % k, "rst", method="POST", body=b"p" * 200000, cut="body", delay=0.01)
        S["%s-hang-abort" % k] = abort("/%s/hang" % k, "close", delay=0.02)
        S["%s-hang-resp-abort" % k] = abort("/%s/hangr" % k, "rst", 10)
    for k in ("openssl", "gnutls"):
        for m in ("full", "unwrap", "abort", "rst", "hs", "garbage", "hello", "empty"):
            S["%s-%s" % (k, m)] = tls(k, m)
    return S


def settle(e, limit, t=25):
    """wait until the server uses no more than `limit` descriptors"""
    t0 = time.time()
    while time.time() - t0 < t:
        if e.nfds() <= limit:
            return True
        time.sleep(0.05)
    return e.nfds() <= limit


def run(chk):
    build.build("asan")
    build.build("plain")
    S = scenarios()
    be = Backend(chk)
    be.so = os.path.join(chk.scratch, "memcount.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-fno-builtin", "-o", be.so, os.path.join(os.path.dirname(backends.__file__), "memcount.c"), "-ldl"], check=True)
    tmp0 = set(glob.glob("/var/tmp/lighttpd-buffer-*"))

    # --- live heap blocks per scenario (plain build)
    names = sorted(S)
    chk.rng("order").shuffle(names)
    if chk.args.only:
        names = [n for n in names if n in chk.args.only.split(",")] or names
    lanes = 6
    batch = 40

    def lane(li):
        e = Env(chk, be, "plain", workers=1)
        mine = names[li::lanes]
        for n in mine:
            if len(chk.violations) > 6:
                break
            r = chk.rng("scn", n)
            for _ in range(12):
                S[n](e, r)
            slack = 6 if ("fastcgi" in n or n == "keepalive") else 0

            def measure():
                if not settle(e, e.base + slack, 25):
                    chk.violation("fds:%s" % n, "%d descriptors in use 25 s after all '%s' clients are gone (%d at start): %s" % (
                        e.nfds(), n, e.base, sorted(e.srv.fds().values())[-12:]), {"scenario": n})
                last = None
                for _ in range(30):
                    v = e.live()
                    if v == last:
                        return v
                    last = v
                    time.sleep(0.03)
                return last
            m = [measure()]
            for rnd in range(3):
                for _ in range(batch):
                    S[n](e, r)
                m.append(measure())
                if m[-1][0] - m[-2][0] < batch // 4 and m[-1][1] - m[-2][1] < 100000:
                    break
            else:
                # grows in every round: confirm with further rounds
                for rnd in range(2):
                    for _ in range(batch):
                        S[n](e, r)
                    m.append(measure())
                gb = [m[i + 1][0] - m[i][0] for i in range(5)]
                gy = [m[i + 1][1] - m[i][1] for i in range(5)]
                if min(gb) >= batch // 4 or min(gy) >= 100000:
                    chk.violation("memory:%s" % n, "memory grows with every '%s' request: +%r blocks, +%r bytes per %d requests" % (n, gb, gy, batch), {"scenario": n, "measurements": m})
            chk.ok(12 + batch * (len(m) - 1), scenario=n)
            chk.count("growth", "%s: blocks %r bytes %r" % (n, [m[i + 1][0] - m[i][0] for i in range(len(m) - 1)], [m[i + 1][1] - m[i][1] for i in range(len(m) - 1)]))
        e.srv.verify("end")
        e.srv.stop()

    # --- everything at once (ASan+LSan)
    def storm(_):
        e = Env(chk, be, "asan", workers=4, leaks=True)
        for rnd in range(chk.n(4, 30)):
            if len(chk.violations) > 6:
                break

            def client(j):
                r = chk.rng("storm", rnd, j)
                for q in range(45):
                    n = r.choice(names)
                    try:
                        S[n](e, r)
                    except (OSError, http.Timeout) as ex:
                        if not e.srv.alive():
                            return
                        raise
                    chk.ok(storm=n)
            check.parallel(14, client, list(range(14)))
            if not settle(e, e.base, 40):
                chk.violation("fds:storm", "%d descriptors in use 40 s after all clients are gone (%d at start): %s" % (e.nfds(), e.base, sorted(e.srv.fds().values())[-12:]), {})
            # every backend connection whose client went away was closed
            t = time.time()
            while be.held and time.time() - t < 15:
                time.sleep(0.1)
            with be.lock:
                old = {k: v for k, v in be.held.items() if time.time() - v > 10}
            if old:
                chk.violation("backend-held", "%d backend connections of aborted clients still in use" % len(old), {"held": [str(k) for k in old]})
            # connection table: only the one asking
            rsp = http.get(e.port, "/status?format=plain")
            info = dict(l.split(b": ", 1) for l in rsp.body.split(b"\n") if b": " in l)
            chk.sample("status after round %d: %s" % (rnd, rsp.body[:300].decode("latin-1")))
            act = [int(v) for k, v in info.items() if k.strip() in (b"connection_state_start", b"connection_state_read_header", b"connection_state_handle_request", b"connection_state_write_response", b"connection_state_keep_alive")]
            if act and sum(act) != 1:
                chk.violation("connections", "status lists %r connections while only one is open" % act, {"status": rsp.body})
            chk.ok(idle_rounds=rnd)
            e.srv.verify("round %d" % rnd)
        e.srv.stop(ctx="leaks at exit")

    th = []
    errs = []

    def guard(f, a):
        try:
            f(a)
        except Exception as ex:
            errs.append(ex)
    th = [threading.Thread(target=guard, args=(lane, i), daemon=True) for i in range(lanes)] + [threading.Thread(target=guard, args=(storm, 0), daemon=True)]
    for t in th:
        t.start()
    for t in th:
        t.join(420)
    if errs:
        raise errs[0]
    left = set(glob.glob("/var/tmp/lighttpd-buffer-*")) - tmp0
    if left:
        chk.violation("tempfiles", "temporary files left: %r" % sorted(left)[:5], {})
        for f in left:
            os.unlink(f)


if __name__ == "__main__":
    c = check.Check("P21", rule="one evaluation = one complete, failed or aborted exchange after which descriptors, heap blocks, connections and backend connections were compared with the idle level; distinct = scenarios")
    check.run(c, run, min_evals=2500)
