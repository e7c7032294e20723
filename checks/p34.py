"""P34: the status page's totals against the ledger of what clients sent and received, and its list of connections against the connections held open"""
import html.parser
import os
import re
import socket
import ssl
import threading
import time

from vf import backends, build, check, http, server

CA = os.path.join(os.environ.get("VF_REPO", "/repo"), "tests/ca")


class Ledger:
    """what the clients know; lo/hi where the server may know more than they do"""
    def __init__(self):
        self.lock = threading.Lock()
        self.inlo = self.inhi = self.outlo = self.outhi = 0
        self.reqlo = self.reqhi = 0
        self.code = {}
        self.codehi = {}

    def add(self, **k):
        with self.lock:
            for n, v in k.items():
                setattr(self, n, getattr(self, n) + v)

    def codes(self, status, sure=True):
        with self.lock:
            c = status // 100
            self.codehi[c] = self.codehi.get(c, 0) + 1
            if sure:
                self.code[c] = self.code.get(c, 0) + 1


class CSock:
    """counts the bytes on the wire; `fuzzy` = the server may have read less or sent more than seen here"""
    def __init__(self, led, addr, port, tls=None, src=None, rcvbuf=None):
        self.led = led
        self.fuzzy = False
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if src:
            s.bind((src, 0))
        s.settimeout(30)
        s.connect((addr, port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s = s
        self.sent = self.rcvd = 0
        self.obj = None
        self.counted_out = 0
        if tls:
            self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
            self.obj = tls.wrap_bio(self.i, self.o)
            while True:
                try:
                    self.obj.do_handshake()
                    self._flush()
                    break
                except ssl.SSLWantReadError:
                    self._flush()
                    if not self._raw():
                        raise ConnectionResetError("eof in handshake")

    def settimeout(self, t):
        self.s.settimeout(t)

    def _rawsend(self, d):
        with self.led.lock:
            self.led.inhi += len(d)
            if not self.fuzzy:
                self.led.inlo += 0
        self.sent += len(d)
        self.s.sendall(d)

    def _flush(self):
        d = self.o.read()
        if d:
            self._rawsend(d)

    def _raw(self):
        d = self.s.recv(262144)
        self.rcvd += len(d)
        if d:
            self.led.add(outlo=len(d))
        if self.obj is not None:
            if d:
                self.i.write(d)
            else:
                self.i.write_eof()
        return d

    def sendall(self, d):
        if self.obj is None:
            return self._rawsend(d)
        self.obj.write(d)
        self._flush()

    def recv(self, n):
        if self.obj is None:
            return self._raw()
        while True:
            try:
                return self.obj.read(n)
            except ssl.SSLWantReadError:
                self._flush()
                if not self._raw():
                    return b""
            except (ssl.SSLZeroReturnError, ssl.SSLEOFError):
                return b""

    def setsockopt(self, *a):
        self.s.setsockopt(*a)

    def shutdown(self, how):
        self.s.shutdown(how)

    def drain(self):
        """-> everything the server sends until the end"""
        while True:
            try:
                if not self._raw():
                    return True
            except (ConnectionResetError, BrokenPipeError):
                return False

    def close(self):
        self.s.close()


def finish(c, led, exact=True):
    """orderly end: half close, read the rest; then both counts are exact"""
    s = c.s
    ok = exact
    if exact:
        try:
            s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        ok = s.drain()
    s.close()
    if ok:
        led.add(inlo=s.sent, outhi=s.rcvd)
        return True
    return False


def plain(body):
    return {k.decode(): int(v) for k, v in re.findall(rb"^(\w+): (-?\d+)$", body, re.M)}


class Bad(Exception):
    def __init__(self, key, what, wit=""):
        self.v = (key, what, wit)


MONO = ["requests_abs", "traffic_out_abs", "traffic_in_abs", "status_1xx", "status_2xx", "status_3xx", "status_4xx", "status_5xx", "uptime"]


def totals(chk, rnd, workers):
    d = os.path.join(chk.scratch, "t%d" % rnd)
    os.makedirs(d)
    sizes = {"/s": 10, "/m": 5000, "/l": 150000, "/x": 1500000}
    for n, v in sizes.items():
        with open(d + n, "wb") as f:
            f.write(b"z" * v)
    with open(d + "/huge", "wb") as f:
        f.truncate(40 << 20)

    def app(rq):
        if b"upgrade" in [k.lower() for k, _ in rq.headers]:
            return [("raw", b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: echo\r\nConnection: upgrade\r\n\r\n"), ("call", echo)]
        m = re.match(rb".*?/be/(\d+)/(\d+)/(\w+)", rq.target)
        st, n, how = int(m.group(1)), int(m.group(2)), m.group(3)
        body = b"b" * n
        if how == b"len":
            return [("raw", b"HTTP/1.1 %d X\r\nContent-Length: %d\r\n\r\n" % (st, n) + body), ("end",)]
        if how == b"close":
            return [("raw", b"HTTP/1.1 %d X\r\n\r\n" % st + body[:n // 2]), ("sleep", 0.01), ("raw", body[n // 2:]), ("end",)]
        return [("raw", b"HTTP/1.1 %d X\r\nTransfer-Encoding: chunked\r\n\r\n" % st + b"".join(b"%x\r\n%s\r\n" % (len(x), x) for x in (body[i:i + 4000] for i in range(0, n, 4000))) + b"0\r\n\r\n"), ("end",)]

    def echo(conn, *a):
        s = conn if hasattr(conn, "recv") else conn.sock
        while True:
            try:
                x = s.recv(65536)
            except OSError:
                return
            if not x:
                return
            s.sendall(x)
    be = backends.HttpStub(app)
    up = socket.socket()
    up.bind(("127.0.0.1", 0))
    up.listen(100)

    def upsrv():
        while True:
            try:
                s, _ = up.accept()
            except OSError:
                return
            threading.Thread(target=upconn, args=(s,), daemon=True).start()

    def upconn(s):
        b = b""
        try:
            while b"\r\n\r\n" not in b:
                x = s.recv(4096)
                if not x:
                    return
                b += x
            s.sendall(b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: echo\r\nConnection: upgrade\r\n\r\n")
            while True:
                x = s.recv(65536)
                if not x:
                    return
                s.sendall(x)
        except OSError:
            pass
        finally:
            s.close()
    threading.Thread(target=upsrv, daemon=True).start()
    tport = server.free_port()
    tmod = ["openssl", "gnutls"][rnd % 2]
    srv = server.Server(chk, 'keepalive.requests 1000000; keepalive.timeout 60;\nif req.path == "/status" { status.info; } else if req.path =^ "/be/" { proxy "127.0.0.1:%d"; } else if req.path == "/up" { proxy "127.0.0.1:%d"; } else if req.path == "/r" { redirect "/s"; } else if req.path == "/e" { respond 503 => "no"; } else { docroot "%s"; static; }' % (
        be.port, up.getsockname()[1], d), setup='%s [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem" ];\n' % (tmod, tport, CA),
        modules=["mod_status", "mod_proxy", "mod_" + tmod, "mod_redirect"], workers=workers, name="t%d" % rnd).start()
    srv.wait_port(tport)
    tls = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    tls.check_hostname = False
    tls.verify_mode = ssl.CERT_NONE
    led = Ledger()
    stop = threading.Event()

    def conn(r, tl=None, **k):
        t = tl if tl is not None else r.random() < 0.3
        for _ in range(3):
            s = CSock(led, "127.0.0.1", tport if t else srv.port, tls if t else None, **k)
            return http.Conn(sock=s, timeout=30)

    def request(r):
        k = r.random()
        if k < 0.4:
            return "GET", r.choice(list(sizes)), None, ()
        if k < 0.5:
            return "HEAD", r.choice(list(sizes)), None, ()
        if k < 0.6:
            return "GET", "/nope", None, ()
        if k < 0.65:
            return "GET", "/r", None, ()
        if k < 0.7:
            return "GET", "/e", None, ()
        st = r.choice([200, 200, 200, 404, 301, 500, 204, 418])
        n = 0 if st in (204, 301) else r.choice([1, 100, 30000, 300000])
        t = "/be/%d/%d/%s" % (st, n, "len" if st in (204, 301) else r.choice(["len", "close", "chunked"]))
        if k < 0.85:
            return "GET", t, None, ()
        return "POST", t, b"p" * r.choice([0, 1, 500, 20000, 250000]), r.choice([(), (), (("Expect", "100-continue"),)])

    def client(j):
        r = chk.rng("client", rnd, j)
        for _ in range(5):
            kind = r.choice(["keep", "keep", "pipe", "close", "one0", "bad", "long", "partial", "none", "abort", "abortup", "upgrade", "keep", "slow", "half", "half"])
            # rounds exact to the request, rounds exact to the byte, rounds with everything
            if rnd % 3 == 0 and kind in ("abort", "abortup", "half"):
                kind = "long"
            elif rnd % 3 == 1 and kind in ("abort", "abortup", "long"):
                kind = "half"
            try:
                tl = None
                c = conn(r, tl)
                s = c.s
                exact = True
                if kind in ("keep", "close", "one0", "slow"):
                    nr = r.randint(1, 6) if kind in ("keep", "slow") else 1
                    for _i in range(nr):
                        m, t, body, hd = request(r)
                        hd = list(hd)
                        if kind == "one0":
                            hd = []
                        if kind == "close":
                            hd.append(("Connection", "close"))
                        raw = http.build_request(m, t, hd, body, version="1.0" if kind == "one0" else "1.1", chunked=[r.choice([1, 900, 40000])] if body and kind != "one0" and r.random() < 0.3 else None)
                        led.add(reqhi=1)
                        if kind == "slow":
                            cut = r.randrange(1, min(len(raw), 100))
                            c.send(raw[:cut])
                            time.sleep(r.choice([0.001, 0.02]))
                            c.send(raw[cut:])
                        else:
                            c.send(raw)
                        p = c.read_response(m)
                        if not p.complete:
                            raise http.Closed("incomplete")
                        led.add(reqlo=1)
                        led.codes(p.status)
                        chk.count("status", p.status)
                        if not p.keepalive() or kind == "one0" or p.framing == "close":
                            break
                elif kind == "pipe":
                    qs = []
                    for _i in range(r.randint(2, 8)):
                        m, t, body, hd = request(r)
                        if t.endswith("/close") or body is not None:
                            m, t, body = "GET", "/m", None
                        qs.append((m, http.build_request(m, t)))
                    led.add(reqhi=len(qs))
                    c.send(b"".join(q for _m, q in qs))
                    for m, _q in qs:
                        p = c.read_response(m)
                        led.add(reqlo=1)
                        led.codes(p.status)
                elif kind == "bad":
                    led.add(reqhi=1)
                    c.send(r.choice([b"GET / HTTP/1.1\r\n\r\n", b"GET\r\n\r\n", b"\x01\x02 / HTTP/1.1\r\n\r\n", b"GET /s HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n", b"GET /s HTTP/3.1\r\nHost: a\r\n\r\n", b"POST /s HTTP/1.1\r\nHost: a\r\n\r\n",
                                     b"GET /%zz HTTP/1.1\r\nHost: a\r\nExpect: x\r\n\r\n"]))
                    p = c.read_response("GET")
                    led.add(reqlo=1)
                    led.codes(p.status)
                    if p.status < 400:
                        raise Bad("bad", "malformed request answered with %d" % p.status)
                elif kind == "long":
                    led.add(reqhi=1)
                    c.send(b"GET /" + b"a" * 9000 + b" HTTP/1.1\r\nHost: a\r\n\r\n")
                    p = c.read_response("GET")
                    led.add(reqlo=1)
                    led.codes(p.status)
                    exact = None
                elif kind == "partial":
                    c.send(b"GET /s HTTP/1.1\r\nHost: abc\r\nX-Y"[:r.randrange(1, 30)])
                    if r.random() < 0.3 and rnd % 3 == 2:
                        exact = False
                        led.add(outhi=4096)
                elif kind == "half":
                    # the server may or may not answer; what it sends has to be counted
                    led.add(reqhi=1)
                    led.codes(200, False)
                    c.send(http.build_request("GET", r.choice(["/x", "/l", "/m", "/huge"])))
                    time.sleep(r.choice([0, 0, 0, 0.0003]))
                elif kind == "none":
                    time.sleep(r.choice([0, 0.01]))
                elif kind == "abort":
                    led.add(reqhi=1)
                    c.send(http.build_request("GET", "/huge"))
                    while len(c.buf) < 100000 and c.fill():
                        pass
                    led.add(reqlo=1, outhi=(41 << 20) * 21 // 20)
                    led.codes(200)
                    exact = False
                elif kind == "abortup":
                    led.add(reqhi=1, outhi=4096)
                    raw = http.build_request("POST", "/be/200/10/len", (), b"u" * 300000)
                    c.send(raw[:200000])
                    led.codes(200, False)
                    led.codes(500, False)
                    exact = False
                elif kind == "upgrade":
                    led.add(reqhi=1)
                    c.send(http.build_request("GET", "/up", [("Connection", "upgrade"), ("Upgrade", "echo")]))
                    p = c.read_response("GET")
                    if p.status != 101:
                        raise http.Closed("no upgrade: %d" % p.status)
                    led.add(reqlo=1)
                    led.codes(101)
                    for _i in range(r.randint(1, 4)):
                        x = b"e" * r.choice([1, 1000, 50000])
                        c.send(x)
                        while len(c.buf) < len(x):
                            if not c.fill():
                                raise http.Closed("tunnel closed")
                        del c.buf[:]
                if exact is None:
                    # the end of the request may be unread
                    try:
                        s.shutdown(socket.SHUT_WR)
                    except OSError:
                        pass
                    whole = s.drain()
                    s.close()
                    led.add(inlo=8000, outhi=s.rcvd + (0 if whole else 100))
                elif exact:
                    if not finish(c, led):
                        led.add(inlo=0, outhi=s.rcvd + 100)
                        chk.count("reset", kind)
                else:
                    c.rst()
                    led.add(outhi=s.rcvd)
                chk.ok(clients="%s%s" % (kind, " tls" if s.obj is not None else ""))
            except Bad:
                raise
            except (http.Closed, http.Timeout, http.ProtoError, OSError, ssl.SSLError) as e:
                led.add(reqhi=2, outhi=50 << 20)
                for x in range(1, 6):
                    led.codes(x * 100, False)
                led.fuzz = getattr(led, "fuzz", 0) + 1
                chk.count("client failed", "%s: %s" % (kind, type(e).__name__))
                chk.sample("client failed: %s: %r" % (kind, e))

    def one_poll(c, last):
        q = http.build_request("GET", "/status?format=plain")
        with led.lock:
            lo = led.reqlo, led.outlo
            led.reqhi += 1
        c.send(q)
        with led.lock:
            pass
        p = c.read_response("GET")
        with led.lock:
            hi = led.reqhi, led.inhi
            led.reqlo += 1
        led.codes(p.status)
        v = plain(p.body)
        for k in MONO:
            if k not in v:
                raise Bad("page", "status page without %s" % k, p.body[:400])
            if last and v[k] < last[k]:
                raise Bad("backwards", "%s went from %d to %d" % (k, last[k], v[k]))
        if not lo[0] + 1 <= v["requests_abs"] <= hi[0]:
            raise Bad("requests", "status page says %d requests while clients had %d answered before and %d started after" % (v["requests_abs"], lo[0] + 1, hi[0]))
        if v["traffic_out_abs"] < lo[1]:
            raise Bad("out", "status page says %d bytes sent, clients had already received %d" % (v["traffic_out_abs"], lo[1]))
        if v["traffic_in_abs"] > hi[1]:
            raise Bad("in", "status page says %d bytes received, clients had only sent %d" % (v["traffic_in_abs"], hi[1]))
        chk.ok(polls="w%d" % workers)
        return v

    def poller(j):
        last = None
        c = None
        while not stop.is_set():
            try:
                if c is None:
                    c = http.Conn(sock=CSock(led, "127.0.0.1", srv.port), timeout=30)
                last = one_poll(c, last)
            except (http.Closed, http.Timeout, OSError) as e:
                chk.sample("poller: %r" % e)
                led.add(reqhi=1)
                c = None
            time.sleep(0.003 * j)
        if c:
            finish(c, led)
    errs = []

    def guard(fn, j):
        try:
            fn(j)
        except Bad as e:
            errs.append(e.v)
    ps = [threading.Thread(target=guard, args=(poller, j)) for j in range(3)]
    for t in ps:
        t.start()
    check.parallel(14, lambda j: guard(client, j), range(chk.n(70)))
    stop.set()
    for t in ps:
        t.join()
    # quiet now: the totals must equal the ledger
    c = http.Conn(sock=CSock(led, "127.0.0.1", srv.port), timeout=30)
    last = None
    why = None
    for att in range(60):
        inlo, out0 = led.inlo + c.s.sent + len(http.build_request("GET", "/status?format=plain")), (led.outlo, led.outhi + c.s.rcvd)
        codes = dict(led.code)
        codehi = dict(led.codehi)
        reqs = led.reqlo + 1, led.reqhi + 1
        inhi = led.inhi + len(http.build_request("GET", "/status?format=plain"))
        try:
            last = v = one_poll(c, last)
        except Bad as e:
            errs.append(e.v)
            break
        why = None
        if not reqs[0] <= v["requests_abs"] <= reqs[1]:
            why = ("requests-final", "requests_abs %d, clients made %d..%d" % (v["requests_abs"], reqs[0], reqs[1]))
        elif not inlo <= v["traffic_in_abs"] <= inhi:
            why = ("in-final", "traffic_in_abs %d, clients sent %d..%d" % (v["traffic_in_abs"], inlo, inhi))
        elif not out0[0] <= v["traffic_out_abs"] <= out0[1]:
            why = ("out-final", "traffic_out_abs %d, clients received %d..%d" % (v["traffic_out_abs"], out0[0], out0[1]))
        elif v["connections_abs"] != 1:
            why = ("connections-final", "connections_abs %d, but only this connection is open" % v["connections_abs"])
        else:
            for x in range(1, 6):
                g = v["status_%dxx" % x]
                if not codes.get(x, 0) <= g <= codehi.get(x, 0):
                    why = ("codes-final", "status_%dxx is %d, clients saw %d..%d" % (x, g, codes.get(x, 0), codehi.get(x, 0)))
        if why is None:
            break
        time.sleep(0.1)
    if why:
        errs.append(why + ("workers=%d" % workers,))
    chk.count("final slack (out)", "exact" if out0[0] == out0[1] else "<=100 bytes" if out0[1] - out0[0] <= 100 else "interval")
    chk.count("final slack (in)", "exact" if inlo == inhi else "interval")
    chk.count("final slack (requests)", "exact" if reqs[0] == reqs[1] else "interval")
    chk.sample("requests %d..%d, bytes in %d..%d" % (reqs + (inlo, inhi)))
    chk.sample("bytes out %d..%d" % out0)
    chk.ok(finals="w%d %s" % (workers, tmod))
    for e in errs[:3]:
        chk.violation(e[0], e[1], (e[2] if len(e) > 2 else "") or repr(last))
    c.close()
    be.stop()
    up.close()
    srv.verify("totals %d" % rnd)
    srv.stop()


class Page(html.parser.HTMLParser):
    """tables of the html page: [(title, [[cell text or value...]...])]"""
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tables = []
        self.title = ""
        self.intitle = False
        self.cell = None
        self.odd = []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "div" and a.get("class") == "title":
            self.intitle = True
            self.title = ""
        elif tag == "table":
            self.tables.append((self.title, []))
        elif tag == "tr" and self.tables:
            self.tables[-1][1].append([])
        elif tag in ("td", "th"):
            self.cell = [[], []]
        elif tag == "span" and self.cell is not None and "value" in a:
            self.cell[1].append(int(a["value"]))
        if tag not in ("html", "head", "title", "meta", "link", "script", "style", "body", "div", "span", "a", "strong", "table", "tr", "td", "th"):
            self.odd.append(tag)

    def handle_endtag(self, tag):
        if tag == "div":
            self.intitle = False
        elif tag in ("td", "th") and self.cell is not None:
            self.tables[-1][1][-1].append(("".join(self.cell[0]), self.cell[1]))
            self.cell = None

    def handle_data(self, data):
        if self.intitle:
            self.title += data
        elif self.cell is not None:
            self.cell[0].append(data)


STATES = {"start": "request start", "header": "read request header", "handle": "handle main vrequest", "write": "write", "keep": "keep-alive", "up": "upgraded"}
PLAINKEY = {"start": "connection_state_start", "header": "connection_state_read_header", "handle": "connection_state_handle_request", "write": "connection_state_write_response", "keep": "connection_state_keep_alive", "up": "connection_state_upgraded"}
SHORT = {"start": "q", "header": "r", "handle": "h", "write": "w", "keep": "K", "up": "u"}


def listing(chk, rnd, workers):
    r = chk.rng("listing", rnd)
    d = os.path.join(chk.scratch, "l%d" % rnd)
    os.makedirs(d)
    with open(d + "/f", "wb") as f:
        f.write(b"f" * 1000)
    big = backends.HttpStub(lambda rq: [("raw", b"HTTP/1.1 200 OK\r\nContent-Length: 6000000\r\n\r\n" + b"w" * 6000000), ("hang", 60)])
    hang = backends.HttpStub(lambda rq: [("hang", 60)])
    ups = backends.HttpStub(lambda rq: [("raw", b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\nConnection: upgrade\r\n\r\n"), ("hang", 60)])
    with open(d + "/huge", "wb") as f:
        f.truncate(64 << 20)
    mods = ["mod_status", "mod_proxy", "mod_redirect", "mod_rewrite", "mod_access", "mod_expire", "mod_vhost", "mod_deflate", "mod_dirlist", "mod_fortune", "mod_limit", "mod_flv", "mod_progress", "mod_userdir"][:3 + r.randrange(12)]
    srv = server.Server(chk, 'keepalive.requests 1000000; keepalive.timeout 60; io.buffer_out 16kbyte;\nif req.path =^ "/status" { status.info; } else if req.path =^ "/short" { status.info "short"; } else if req.path =^ "/hang" { proxy "127.0.0.1:%d"; } else if req.path =^ "/up" { proxy "127.0.0.1:%d"; } else { docroot "%s"; static; }' % (
        hang.port, ups.port, d), modules=mods, workers=workers, name="l%d" % rnd).start()
    held = {}   # address -> dict
    n = [0]

    def add(state):
        n[0] += 1
        src = "127.%d.%d.%d" % (1 + rnd % 200, n[0] // 200, 1 + n[0] % 200)
        c = http.Conn(port=srv.port, src=src, rcvbuf=8192 if state == "write" else None)
        e = {"c": c, "state": None, "sent": 0, "t": time.time(), "t0": time.time(), "first": True, "host": "", "path": "", "query": "", "method": ""}
        held[src] = e
        advance(e, state)

    def send(e, raw):
        e["sent"] += len(raw)
        e["c"].send(raw)

    def advance(e, state):
        c = e["c"]
        e["t"] = time.time()
        host = r.choice(["localhost", "a.example", "x<y>.org", "q&amp;.test", 'd"q.net', "[::1]"])
        tail = r.choice(["", "/a b", "/<script>alert(1)</script>", '/"quoted"', "/&lt;", "/é"])
        query = r.choice(["", "", "a=b&c=d", "x=<b>", "%3Cscript%3E", "format=plain"])
        enc = "".join(ch if re.match(r"[A-Za-z0-9/&;<>\"()]", ch) and ch not in '"' else "%%%02X" % b for ch in tail for b in ch.encode("utf-8")[:1]) if tail != "/é" else "/%C3%A9"
        old = e["state"]
        if state == "header":
            send(e, r.choice([b"G", b"GET /f HTTP/1.1\r\nHost: ab", b"GET /f HTTP/1.1\r\nHost: a\r\n"]))
            e["host"] = e["path"] = None
        elif state in ("handle", "write", "keep", "up"):
            base = {"handle": "/hang", "up": "/up", "write": "/huge", "keep": "/f"}[state]
            if state in ("write", "keep"):
                tail = enc = ""
            m = r.choice(["GET", "GET", "HEAD", "POST"]) if state == "handle" else "GET"
            body = b"q" * r.choice([0, 10, 3000]) if m == "POST" else None
            host = host if re.match(r"^[\w.:\[\]-]+$", host) else "localhost"
            hd = [("Connection", "upgrade"), ("Upgrade", "x")] if state == "up" else []
            raw = http.build_request(m, base + enc + ("?" + query if query else ""), hd, body, host=host.encode())
            send(e, raw)
            e.update(host=host, path=base + tail, query=query, method=m, rs=len(body) if body is not None else 0)
            if state == "keep":
                c.read_response()
            elif state == "up":
                c.read_response()
            elif state == "write":
                c.fill()
            if state in ("keep", "up"):
                e["host"] = e["path"] = None
        e["first"] = old is None or old in ("start",)
        e["state"] = state

    def fetch(path):
        # always on its own connection, from 127.0.0.1
        with http.Conn(port=srv.port) as c:
            c.send(http.build_request("GET", path, [("Connection", "close")]))
            p = c.read_response()
        if p.status != 200:
            raise Bad("page", "%s answered with %d" % (path, p.status))
        return p

    def check_page():
        now = time.time()
        p = fetch("/status")
        pg = Page()
        pg.feed(p.body.decode("utf-8", "surrogateescape"))
        if pg.odd:
            return ("markup", "request data became markup on the status page: %r" % pg.odd[:5], p.body[-3000:])
        tabs = dict((t, rows) for t, rows in pg.tables if rows)
        rows = [x for x in tabs["Active connections"][1:]]
        seen = {}
        own = 0
        for x in rows:
            a = x[0][0]
            if len(x) != 11:
                return ("row", "row with %d cells" % len(x), repr(x))
            a = re.sub(r":\d+$", "", a)
            if a == "127.0.0.1":
                own += 1
                if x[1][0] == "handle main vrequest" and x[3][0] != "/status":
                    return ("own", "the status request itself is listed as %r" % (x,), "")
                continue
            if a in seen:
                return ("twice", "connection from %s listed twice" % a, repr(x))
            seen[a] = x
        if set(seen) - set(held):
            return ("closed-listed", "connections listed that are closed: %r" % sorted(set(seen) - set(held))[:5], "")
        if set(held) - set(seen):
            return ("open-missing", "open connections not listed: %r" % [(a, held[a]["state"]) for a in sorted(set(held) - set(seen))][:5], "")
        cnt = dict.fromkeys(STATES, 0)
        for a, e in held.items():
            x = seen[a]
            cnt[e["state"]] += 1
            if x[1][0] != STATES[e["state"]]:
                return ("state", "connection in state %s is listed as %r" % (e["state"], x[1][0]), repr(x))
            if e["state"] in ("handle", "write"):
                want = (e["host"], e["path"] + ("?" + e["query"] if e["query"] else ""), e["method"])
                got = (x[2][0], x[3][0], x[8][0])
                if (want[0].lower(), want[1], want[2]) != got:
                    return ("what", "request %r is listed as %r" % (want, got), repr(x))
                if x[9][1][0] != e["rs"]:
                    return ("size", "request size %d listed as %r" % (e["rs"], x[9]), repr(x))
            if e["first"] and e["state"] not in ("keep", "up") and x[6][1][0] != e["sent"]:
                return ("traffic-in", "connection that sent %d bytes is listed with %d" % (e["sent"], x[6][1][0]), repr(x))
            if e["state"] in ("start", "header", "handle") and e["first"] and x[6][1][1] != 0:
                return ("traffic-out", "connection that got nothing is listed with %d bytes out" % x[6][1][1], repr(x))
            if not now - e["t"] - 2 <= x[4][1][0] <= time.time() - e["t0"] + 2:
                return ("duration", "duration %d, connected %.1f s ago, last request %.1f s ago" % (x[4][1][0], time.time() - e["t0"], now - e["t"]), repr(x))
        total = len(held) + own
        w = tabs["Absolute stats"]
        if len(w) != workers + 2:
            return ("workers", "%d worker rows for %d workers" % (len(w) - 2, workers), repr(w))
        per = [int(x[4][0].split()[0]) for x in w[1:]]
        if sum(per[:-1]) != per[-1] or per[-1] != total:
            return ("worker-cons", "active connections per worker %r, listed %d" % (per, total), "")
        su = [int(x[0]) for x in tabs["Connections (states, sum)"][1]]
        wantsum = [cnt["start"], cnt["header"], cnt["handle"] + 1, cnt["write"], cnt["keep"], cnt["up"]]
        if su[1:] != wantsum or su[0] != own - 1:
            return ("state-sums", "state sums %r, held %r (own connections %d)" % (su, wantsum, own), "")
        # the plain and the auto format, and the short page
        v = plain(fetch(r.choice(["/status?format=plain", "/short?format=plain"])).body)
        for k, pk in PLAINKEY.items():
            w1 = cnt[k] + (1 if k == "handle" else 0)
            if v[pk] != w1:
                return ("plain-state", "%s: %d, held %d" % (pk, v[pk], w1), "")
        if not len(held) + 1 <= v["connections_abs"] <= len(held) + 3:
            return ("plain-cons", "connections_abs: %d, held %d" % (v["connections_abs"], len(held)), "")
        au = dict(re.findall(r"^([\w ]+): (.*)$", fetch("/status?auto").body.decode(), re.M))
        sb = au["Scoreboard"]
        got = {k: sb.count(SHORT[k]) for k in SHORT}
        want = dict(cnt)
        want["handle"] += 1
        if got != want:
            return ("auto", "scoreboard %r, held %r" % (sb, cnt), "")
        sh = fetch("/short").body
        if b"Active connections</strong>" in sh or b"127." in sh:
            return ("short", "the short page shows connection details", sh[-800:])
        with http.Conn(port=srv.port) as c:
            c.send(http.build_request("GET", "/short?mode=runtime", [("Connection", "close")]))
            if c.read_response().status != 403:
                return ("short-runtime", "short status page gives runtime details", "")
        chk.ok(pages="w%d" % workers)
        for k, x in cnt.items():
            chk.count("held in state", k, x)
        return None

    def settle(what):
        e = None
        t0 = time.time()
        while time.time() - t0 < 8:
            e = check_page()
            if e is None:
                return True
            time.sleep(0.05)
        chk.violation("list-" + e[0], "%s (%s, %d workers)" % (e[1], what, workers), e[2])
        return False
    try:
        for s in STATES:
            for _ in range(2):
                add(s)
        if not settle("initial"):
            return
        for step in range(chk.n(6)):
            for _ in range(r.randint(1, 9)):
                k = r.random()
                if k < 0.5 or len(held) < 4:
                    add(r.choice(list(STATES)))
                elif k < 0.8:
                    a = r.choice(sorted(held))
                    e = held.pop(a)
                    if r.random() < 0.5:
                        e["c"].rst()
                    else:
                        e["c"].close()
                else:
                    a = r.choice(sorted(held))
                    e = held[a]
                    if e["state"] == "keep":
                        advance(e, r.choice(["handle", "keep", "write", "header", "up"]))
                    elif e["state"] == "start":
                        advance(e, r.choice(["handle", "header", "keep"]))
            if not settle("step %d" % step):
                return
        # one steady picture for more than five seconds
        if rnd == 0:
            c = http.Conn(port=srv.port)
            t0 = time.time()
            ok = None
            while time.time() - t0 < 14:
                c.send(http.build_request("GET", "/status?format=plain"))
                v = plain(c.read_response().body)
                ok = v["connections_avg_5sec"] in range(len(held), len(held) + 3)
                if ok and time.time() - t0 > 7:
                    break
                time.sleep(0.25)
            if not ok:
                chk.violation("avg5", "connections_avg_5sec is %d with %d connections open for the last %d seconds" % (v["connections_avg_5sec"], len(held) + 1, time.time() - t0), "")
            if v["uptime"] and abs(v["requests_avg"] - v["requests_abs"] // v["uptime"]) > 0:
                chk.violation("avg", "requests_avg %d of %d requests in %d s" % (v["requests_avg"], v["requests_abs"], v["uptime"]), "")
            chk.ok(averages="w%d" % workers)
            c.close()
        # runtime page: every module
        body = fetch("/status?mode=runtime").body.decode("utf-8", "replace")
        pg = Page()
        pg.feed(body)
        got = [x[0] for t, rows in pg.tables if t == "Loaded modules" for row in rows for x in row if x[0]]
        if sorted(got) != sorted(mods):
            chk.violation("modules", "loaded modules %r, listed %r" % (sorted(mods), got), "")
        chk.ok(runtime=str(len(mods)))
        for a in sorted(held):
            held.pop(a)["c"].close()
        settle("all closed")
    except Bad as e:
        chk.violation(*e.v)
    finally:
        for e in held.values():
            e["c"].close()
        for b in (big, hang, ups):
            b.stop()
    srv.verify("listing %d" % rnd)
    srv.stop()


def run(chk):
    build.build("asan")
    jobs = []
    for i in range(chk.n(6)):
        jobs.append(("totals", i, [2, 1, 4][i % 3]))
    for i in range(chk.n(4)):
        jobs.append(("listing", i, [3, 1, 2][i % 3]))
    jobs.sort(key=lambda j: j[1])

    def go(j):
        (totals if j[0] == "totals" else listing)(chk, j[1], j[2])
    if chk.args.only:
        jobs = [j for j in jobs if j[0] in chk.args.only]
    check.parallel(3, go, jobs)


if __name__ == "__main__":
    c = check.Check("P34", rule="clients keep a ledger of requests, statuses and wire bytes (TLS through memory BIOs); every poll of the status page lies within what was answered before it and started after it and never below the previous poll, and at rest the totals equal the ledger; connections held open in every state from distinct addresses are exactly the ones listed, each with its state, request and traffic, in the html, plain, auto and short forms")
    check.run(c, run, min_evals=300)
