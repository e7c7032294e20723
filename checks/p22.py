"""P22: idle peers are timed out and nobody else is"""
import os
import socket
import ssl
import threading
import time

from vf import backends, build, check, http, server

CA = os.path.join(build.REPO, "tests/ca")
IO = 3.0        # io.timeout
KA = 2.0        # keepalive.timeout
GRAN = 1.1      # activity is recorded with a granularity of one second
LATE = 3.0      # how much later than the timeout a connection may be closed
BIG = 16000000
BODY = b"D" * BIG


class Early(Exception):
    pass


class Cl:
    """a client connection whose every activity is time-stamped"""

    def __init__(self, e, kind, rcvbuf=None):
        self.e = e
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(30)
        s.connect(("127.0.0.1", {"plain": e.port, "openssl": e.tls, "gnutls": e.tls2}[kind]))
        self.last = self.first = time.time()
        self.maxgap = 0.0
        if kind != "plain":
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
            s = ctx.wrap_socket(s, server_hostname="test1.ssl")
            s.settimeout(30)
        self.lport = s.getsockname()[1]
        self.c = http.Conn(sock=s, timeout=30)
        self.s = s

    def mark(self):
        n = time.time()
        self.maxgap = max(self.maxgap, n - self.last)
        self.last = n

    def send(self, d):
        self.mark()
        try:
            self.s.sendall(d)
        except OSError as ex:
            raise http.Closed(str(ex))
        self.last = time.time()

    def recv(self, n):
        self.mark()
        try:
            d = self.s.recv(n)
        except socket.timeout:
            raise http.Timeout()
        except OSError as ex:
            raise http.Closed(str(ex))
        if not d:
            raise http.Closed("eof")
        self.last = time.time()
        return d

    def wait_closed(self, limit):
        """time since the last activity until the server closes; None if it does not"""
        self.s.settimeout(limit)
        t0 = self.last
        try:
            while True:
                d = self.s.recv(65536)
                if not d:
                    break
        except (socket.timeout, TimeoutError):
            return None
        except OSError:
            pass
        return time.time() - t0

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


def expect_close(cl, low, high, what):
    """server has to close between low and high seconds after the last activity"""
    d = cl.wait_closed(high + 4)
    if d is None:
        return ("late:" + what, "%s: still open %.1f s after the last activity (limit %.1f s)" % (what, time.time() - cl.last, high))
    if d > high:
        return ("late:" + what, "%s: closed only %.1f s after the last activity (limit %.1f s)" % (what, d, high))
    if d < low:
        return ("early:" + what, "%s: closed %.1f s after the last activity although the timeout is longer (%.1f s)" % (what, d, low))
    return ("ok", d)


def judge_early(cl, ex, what):
    if cl.maxgap < IO - GRAN - 0.2:
        return ("early:" + what, "%s: connection lost (%r) although the client was never idle for longer than %.2f s (timeout %.1f s)" % (what, ex, cl.maxgap, IO))
    return ("slow", "client was slow itself: %.1f s" % cl.maxgap)


def s_silent(e, r, kind):
    cl = Cl(e, kind)
    try:
        return expect_close(cl, IO - GRAN, IO + LATE, "silent")
    finally:
        cl.close()


def s_nohandshake(e, r, kind):
    cl = Cl(e, "plain")
    cl.close()
    s = socket.create_connection(("127.0.0.1", e.tls if kind == "openssl" else e.tls2))
    cl.s = s
    cl.last = time.time()
    try:
        if r.random() < 0.5:
            s.sendall(bytes.fromhex("16030100c8010000c40303") + bytes(20))
        return expect_close(cl, IO - GRAN, IO + LATE, "handshake-" + kind)
    finally:
        cl.close()


def s_header(e, r, kind):
    cl = Cl(e, kind)
    raw = http.build_request("GET", "/a.txt", [("X-Filler", "y" * 40)])
    try:
        n = r.randrange(1, len(raw) - 2)
        k = r.randrange(0, 4)
        cuts = sorted(r.sample(range(n), min(k, n)))
        p = 0
        for c in cuts + [n]:
            if c > p:
                cl.send(raw[p:c])
                p = c
                if c != n:
                    time.sleep(r.uniform(0.1, IO - GRAN - 0.4))
        if cl.maxgap > IO - GRAN - 0.2:
            return ("slow", "")
        return expect_close(cl, IO - GRAN, IO + LATE, "partial header")
    except http.Closed as ex:
        return judge_early(cl, ex, "partial header")
    finally:
        cl.close()


def s_header_slow(e, r, kind):
    cl = Cl(e, kind)
    raw = http.build_request("GET", "/a.txt", [("X-Filler", "y" * 40)])
    try:
        cuts = sorted(r.sample(range(1, len(raw) - 1), r.randrange(4, 8)))
        p = 0
        for c in cuts + [len(raw)]:
            cl.send(raw[p:c])
            p = c
            time.sleep(r.uniform(0.3, IO - GRAN - 0.3))
        rsp = cl.c.read_response("GET")
        if rsp.status != 200:
            return ("early:slow header", "slow header: status %d" % rsp.status)
        return ("ok", time.time() - cl.first)
    except (http.Closed, http.Timeout) as ex:
        return judge_early(cl, ex, "slow header")
    finally:
        cl.close()


def s_body(e, r, kind):
    cl = Cl(e, kind)
    be = r.choice(["proxy", "fastcgi", "scgi"])
    nb = r.choice(["", "/nb"])
    n = r.choice([1000, 100000])
    try:
        cl.send(http.build_request("POST", "%s/%s/x" % (nb, be), [("Content-Length", str(n))]))
        for _ in range(r.randrange(1, 4)):
            cl.send(b"x" * (n // 8))
            time.sleep(r.uniform(0.1, IO - GRAN - 0.4))
        cl.send(b"x" * (n // 8))
        if cl.maxgap > IO - GRAN - 0.2:
            return ("slow", "")
        return expect_close(cl, IO - GRAN, IO + LATE, "partial body")
    except http.Closed as ex:
        return judge_early(cl, ex, "partial body")
    finally:
        cl.close()


def s_body_slow(e, r, kind):
    cl = Cl(e, kind)
    be = r.choice(["proxy", "fastcgi", "scgi"])
    nb = r.choice(["", "/nb"])
    n = r.choice([1000, 100000])
    k = r.randrange(4, 7)
    try:
        cl.send(http.build_request("POST", "%s/%s/x" % (nb, be), [("Content-Length", str(n * k))]))
        for _ in range(k):
            time.sleep(r.uniform(0.2, IO - GRAN - 0.4))
            cl.send(b"x" * n)
        rsp = cl.c.read_response("POST")
        if rsp.status != 200 or rsp.body != b"%d" % (n * k):
            return ("early:slow body", "slow body: status %d body %r" % (rsp.status, rsp.body[:40]))
        return ("ok", time.time() - cl.first)
    except (http.Closed, http.Timeout) as ex:
        return judge_early(cl, ex, "slow body")
    finally:
        cl.close()


STALL = ["/big.bin", "/proxy/big", "/fastcgi/big", "/scgi/big", "/proxy/bighang", "/fastcgi/bighang"]


def s_stall(e, r, kind):
    """the client stops reading: the server has to drop the connection (seen in the server's descriptors as the kernel can't deliver the end)"""
    cl = Cl(e, kind, 4096)
    t = r.choice(STALL)
    try:
        cl.send(http.build_request("GET", t))
        for _ in range(r.randrange(0, 3)):
            time.sleep(r.uniform(0.1, 1.0))
            cl.recv(3000)
        time.sleep(0.3)
        if not e.has_peer(cl.lport):
            return ("early:stalled", "connection gone right after the request of %s" % t)
        t0 = cl.last
        while time.time() - t0 < IO + LATE + 4:
            if not e.has_peer(cl.lport):
                break
            time.sleep(0.1)
        d = time.time() - t0
        if d > IO + LATE:
            return ("late:stalled " + t, "client does not read %s (%s): connection still there after %.1f s" % (t, kind, d))
        # the kernel's buffers may still take some data a bit after the client stopped
        if d < IO - GRAN - 0.3:
            return ("early:stalled", "client stopped reading %s only %.1f s ago: connection gone" % (t, d))
        return ("ok", d)
    except http.Closed as ex:
        return judge_early(cl, ex, "stalled")
    finally:
        cl.close()


LINGER = 10.0


def s_done(e, r, kind):
    """everything is answered, or sits in the kernel's buffers, and the client neither reads on nor closes: the server must not keep the descriptor"""
    cl = Cl(e, kind, 4096 if r.random() < 0.5 else None)
    how = r.choice(["close", "close", "unread", "idle", "error"])
    try:
        if how == "idle":
            cl.send(http.build_request("GET", "/ka1/a.txt"))
            cl.c.read_response("GET")
        elif how == "error":
            cl.send(b"GET / HTTP/9.9\r\n\r\n")
            cl.c.read_response("GET")
        elif how == "unread":
            cl.send(http.build_request("GET", "/f%d.bin" % r.randrange(8), [("Connection", "close")]))
        else:
            cl.send(http.build_request("GET", r.choice(["/a.txt", "/proxy/small", "/fastcgi/small"]), [("Connection", "close")]))
            cl.c.read_response("GET")
        t0 = time.time()
        while time.time() - t0 < IO + LINGER + LATE + 4:
            if not e.has_peer(cl.lport):
                break
            time.sleep(0.1)
        d = time.time() - t0
        if d > IO + LINGER + LATE:
            return ("late:done " + how, "client (%s) keeps its socket open after the end (%s): the server still holds the connection after %.1f s" % (kind, how, d))
        return ("ok", d)
    except http.Closed as ex:
        return judge_early(cl, ex, "done")
    finally:
        cl.close()


def s_slowread(e, r, kind):
    cl = Cl(e, kind, 65536)
    t = r.choice(STALL[:4])
    got = 0
    try:
        cl.send(http.build_request("GET", t, [("Connection", "close")]))
        t0 = time.time()
        # large steps: the server only sees progress when the kernel has room for a good part of its (large) send buffer
        step = r.randrange(1500000, 2500000)
        while got + step < BIG:
            n = 0
            while n < step:
                n += len(cl.recv(65536))
            got += n
            time.sleep(r.uniform(0.3, 0.9))
        while True:
            got += len(cl.recv(65536))
    except http.Closed as ex:
        if got >= BIG:
            return ("ok", time.time() - cl.first)
        v = judge_early(cl, "%r after %d of %d bytes" % (ex, got, BIG), "slow reader of " + t)
        return v
    finally:
        cl.close()


def s_keepalive(e, r, kind):
    cl = Cl(e, kind)
    path, ka = r.choice([("/a.txt", KA), ("/ka1/a.txt", 1.0), ("/ka4/a.txt", 4.0), ("/proxy/small", KA)])
    try:
        for _ in range(r.randrange(1, 4)):
            cl.send(http.build_request("GET", path))
            rsp = cl.c.read_response("GET")
            if rsp.status != 200 or not rsp.keepalive():
                return ("early:keep-alive", "keep-alive request refused: %r" % rsp)
            cl.last = time.time()
            g = r.uniform(0, ka * 0.7)
            time.sleep(g)
            if time.time() - cl.last > ka * 0.9:
                return ("slow", "")
        cl.send(http.build_request("GET", path))
        cl.c.read_response("GET")
        cl.last = time.time()
        return expect_close(cl, ka - 0.15, ka + LATE, "idle keep-alive %s" % path)
    except (http.Closed, http.Timeout) as ex:
        return ("early:keep-alive", "keep-alive connection (%s) closed early: %r" % (path, ex))
    finally:
        cl.close()


def s_ka_partial(e, r, kind):
    """the next request has started: the io timeout counts"""
    cl = Cl(e, kind)
    try:
        cl.send(http.build_request("GET", "/a.txt"))
        cl.c.read_response("GET")
        time.sleep(r.uniform(0, 1))
        cl.send(b"GET /a.txt HT")
        return expect_close(cl, IO - GRAN, IO + LATE, "partial second request")
    except (http.Closed, http.Timeout) as ex:
        return judge_early(cl, ex, "partial second request")
    finally:
        cl.close()


def s_requests(e, r, kind):
    n = r.choice([1, 2, 3, 7])
    cl = Cl(e, kind)
    k = 0
    pipe = r.random() < 0.4
    try:
        if pipe:
            cl.send(http.build_request("GET", "/kr%d/a.txt" % n) * (n + 3))
        while k < n + 3:
            if not pipe:
                cl.send(http.build_request("GET", "/kr%d/a.txt" % n))
            rsp = cl.c.read_response("GET")
            k += 1
            if not rsp.keepalive():
                break
        if k != n:
            return ("requests", "keepalive.requests %d: closing announced with response %d" % (n, k))
        if cl.wait_closed(5) is None:
            return ("requests", "keepalive.requests %d: connection not closed" % n)
        return ("ok", 0)
    except (http.Closed, http.Timeout) as ex:
        return ("requests", "keepalive.requests %d: %r after %d responses" % (n, ex, k))
    finally:
        cl.close()


def s_ka0(e, r, kind):
    cl = Cl(e, kind)
    try:
        cl.send(http.build_request("GET", "/ka0/a.txt"))
        rsp = cl.c.read_response("GET")
        if rsp.keepalive() or cl.wait_closed(2) is None:
            return ("ka0", "keepalive.timeout 0: connection kept open (%r)" % rsp)
        return ("ok", 0)
    finally:
        cl.close()


def s_slowbackend(e, r, kind):
    """waiting for a backend is not idleness of the client"""
    cl = Cl(e, kind)
    be = r.choice(["proxy", "fastcgi", "scgi"])
    what = r.choice(["wait", "stream"])
    m = r.choice(["GET", "POST"])
    try:
        cl.send(http.build_request(m, "/%s/%s" % (be, what), body=b"abc" if m == "POST" else None))
        rsp = cl.c.read_response(m)
        if rsp.status != 200 or rsp.body != (b"ok" if what == "wait" else b"0123456789" * 100):
            return ("early:slow backend", "%s %s/%s: wrong response %r" % (m, be, what, rsp))
        return ("ok", time.time() - cl.first)
    except (http.Closed, http.Timeout) as ex:
        return ("early:slow backend", "%s %s/%s: connection lost while waiting for the backend: %r after %.1f s" % (m, be, what, ex, time.time() - cl.first))
    finally:
        cl.close()


def s_throttled(e, r, kind):
    cl = Cl(e, kind)
    try:
        cl.send(http.build_request("GET", "/thr/mid.bin"))
        rsp = cl.c.read_response("GET")
        if rsp.status != 200 or len(rsp.body) != 400000:
            return ("early:throttled", "throttled download: %d bytes" % len(rsp.body))
        return ("ok", time.time() - cl.first)
    except (http.Closed, http.Timeout) as ex:
        return ("early:throttled", "throttled download: %r after %.1f s" % (ex, time.time() - cl.first))
    finally:
        cl.close()


SCN = {"silent": s_silent, "header": s_header, "header-slow": s_header_slow, "body": s_body, "body-slow": s_body_slow, "stall": s_stall, "done": s_done, "slowread": s_slowread, "keepalive": s_keepalive, "ka-partial": s_ka_partial,
       "requests": s_requests, "ka0": s_ka0, "slowbackend": s_slowbackend, "throttled": s_throttled}


class Env:
    def __init__(self, chk, workers=3, name="main"):
        self.d = chk.scratch + "/doc-" + name
        os.makedirs(self.d)
        for n, k in (("a.txt", 600), ("big.bin", BIG), ("mid.bin", 400000)) + tuple(("f%d.bin" % i, 150000 + i * 410000) for i in range(8)):
            with open(os.path.join(self.d, n), "wb") as f:
                f.write(b"D" * k)

        def handler(kind):
            def h(rec):
                t = rec.target if kind == "proxy" else rec.env.get(b"REQUEST_URI", b"")
                what = t.rsplit(b"/", 1)[-1].decode()
                http_ = kind == "proxy"

                def head(n=None):
                    o = b"HTTP/1.1 200 OK\r\n" if http_ else b"Status: 200 OK\r\n"
                    return o + (b"Content-Length: %d\r\n" % n if n is not None else b"") + b"Content-Type: text/plain\r\n\r\n"
                end = [("end",)] if kind == "fastcgi" else [("close",)]
                if what == "wait":
                    return [("sleep", IO + 2.5), ("send", head(2) + b"ok")] + end
                if what == "stream":
                    a = [("send", head(None))]
                    for i in range(5):
                        a += [("send", b"0123456789" * 20), ("sleep", 1.2)]
                    a[-3:-3] = [("sleep", IO + 1)]
                    return a + end
                if what == "big":
                    return [("send", head(BIG) + BODY)] + end
                if what == "bighang":
                    return [("send", head(BIG + 1000) + BODY), ("hang", 40)]
                if what == "small":
                    return [("send", head(2) + b"ok")] + end
                b = b"%d" % len(rec.body or b"")
                return [("send", head(len(b)) + b)] + end
            return h
        self.stubs = {k: cls(handler(k), backlog=512) for k, cls in backends.KINDS.items()}
        for s in self.stubs.values():
            chk.cleanup(s.stop)
        self.tls = server.free_port()
        self.tls2 = server.free_port()
        conf = """
keepalive.timeout 2;
docroot "@D@";
if req.path =~ "^/(nb/)?proxy/" { if req.path =^ "/nb/" { buffer_request_body false; } proxy "@P@"; }
else if req.path =~ "^/(nb/)?fastcgi/" { if req.path =^ "/nb/" { buffer_request_body false; } fastcgi "@F@"; }
else if req.path =~ "^/(nb/)?scgi/" { if req.path =^ "/nb/" { buffer_request_body false; } scgi "@S@"; }
else if req.path =^ "/ka0/" { keepalive.timeout 0; alias "/ka0/" => "@D@/"; }
else if req.path =^ "/ka1/" { keepalive.timeout 1; alias "/ka1/" => "@D@/"; }
else if req.path =^ "/ka4/" { keepalive.timeout 4; alias "/ka4/" => "@D@/"; }
else if req.path =^ "/kr1/" { keepalive.requests 1; alias "/kr1/" => "@D@/"; }
else if req.path =^ "/kr2/" { keepalive.requests 2; alias "/kr2/" => "@D@/"; }
else if req.path =^ "/kr3/" { keepalive.requests 3; alias "/kr3/" => "@D@/"; }
else if req.path =^ "/kr7/" { keepalive.requests 7; alias "/kr7/" => "@D@/"; }
else if req.path =^ "/thr/" { io.throttle 60kbyte; alias "/thr/" => "@D@/"; }
static;
"""
        for k, v in (("@D@", self.d), ("@P@", self.stubs["proxy"].addr()), ("@F@", self.stubs["fastcgi"].addr()), ("@S@", self.stubs["scgi"].addr())):
            conf = conf.replace(k, v)
        self.srv = server.Server(chk, conf, setup="""io.timeout %d;
openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "ca-file" => "%s/intermediate.crt" ];
gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem" ];""" % (IO, self.tls, CA, CA, self.tls2, CA),
                                 modules=["mod_proxy", "mod_fastcgi", "mod_scgi", "mod_throttle", "mod_openssl", "mod_gnutls"], workers=workers, name=name, leaks=True)
        self.srv.start().wait_port(self.tls).wait_port(self.tls2)
        self.port = self.srv.port

    def has_peer(self, lport):
        """does the server process still hold a socket connected to our port?"""
        inodes = {v[8:-1] for v in self.srv.fds().values() if v.startswith("socket:[")}
        hx = ":%04X" % lport
        with open("/proc/%d/net/tcp" % self.srv.proc.pid) as f:
            for l in f:
                p = l.split()
                if p[2].endswith(hx) and p[9] in inodes and p[1].split(":")[1] in ("%04X" % self.port, "%04X" % self.tls, "%04X" % self.tls2):
                    return True
        return False


def run(chk):
    build.build("asan")
    e = Env(chk)
    items = []
    rep = chk.n(3, 25)
    for n in SCN:
        if chk.args.only and n not in chk.args.only.split(","):
            continue
        for kind in ("plain", "openssl", "gnutls"):
            if n == "silent" and kind != "plain":
                continue
            k = rep * (2 if kind == "plain" else 1)
            for i in range(k):
                items.append((n, SCN[n], kind, i))
    for kind in ("openssl", "gnutls"):
        for i in range(rep):
            items.append(("nohandshake", s_nohandshake, kind, i))
    chk.rng("order").shuffle(items)

    # a connection that is the only one of its worker (nothing else moves the queue of timeouts)
    lone = []
    for n in ("header-slow", "body-slow", "slowread", "silent", "keepalive"):
        if chk.args.only and "lone" not in chk.args.only.split(","):
            continue
        lone.append((n, Env(chk, 1, "lone-" + n)))

    def alone(n, le):
        for i in range(chk.n(2)):
            for kind in ("plain",) if n == "silent" else ("plain", r0.choice(["openssl", "gnutls"])):
                one(("lone-" + n, SCN[n], kind, i), le)
    r0 = chk.rng("lone")

    def one(it, e=e):
        n, f, kind, i = it
        res = None
        for attempt in range(3):
            r = chk.rng("scn", n, kind, i)     # the same behaviour again
            if attempt == 0:
                time.sleep(r.uniform(0, 1.2))
            res = f(e, r, kind)
            if res[0] == "ok":
                chk.ok(scenario=n + "/" + kind, seconds="%s %.1f" % (n, res[1]))
                return
            if res[0] == "slow":
                continue
            if not e.srv.alive():
                return
            if attempt == 0:
                continue
            break
        if res[0] == "slow":
            chk.inconcl("%s/%s: %s" % (n, kind, res[1]))
        else:
            chk.violation(res[0], "%s [%s]" % (res[1], kind), {"scenario": n, "transport": kind, "seed-index": i})
    th = [threading.Thread(target=alone, args=x, daemon=True) for x in lone]
    for t in th:
        t.start()
    check.parallel(48, one, items)
    for t in th:
        t.join(300)
    for n, le in lone:
        le.srv.verify("end " + n)
        le.srv.stop(ctx="leaks at exit")
    e.srv.verify("end")
    e.srv.stop(ctx="leaks at exit")


if __name__ == "__main__":
    c = check.Check("P22", rule="one evaluation = one connection with time-stamped activity whose lifetime was compared with the configured timeouts; distinct = scenario x transport and observed lifetimes")
    check.run(c, run, min_evals=100)
