"""P26: TLS clients see the same service, securely"""
import hashlib
import os
import random
import re
import socket
import ssl
import struct
import subprocess
import threading
import time

from vf import backends, build, check, http, server

CA = os.path.join(build.REPO, "tests/ca")
MARK = b"PlainTextMarker"


def blob(n):
    return ((MARK + b" 0123456789abcdefghijklm\n") * (n // 40 + 1))[:n]


SIZES = [0, 1, 40, 1000, 4095, 16383, 16384, 16385, 32768, 65536, 100000, 262144, 1000000]


class Breach(Exception):
    pass


class Wire:
    """watches the raw bytes a TLS port sends: only TLS records, never plain text"""

    def __init__(self):
        self.buf = b""
        self.records = 0
        self.types = []
        self.tail = b""

    def feed(self, d):
        if MARK in self.tail + d:
            raise Breach("plain text of a response appears on the TLS connection")
        self.tail = (self.tail + d)[-32:]
        self.buf += d
        while len(self.buf) >= 5:
            t, v, n = struct.unpack(">BHH", self.buf[:5])
            if t not in (20, 21, 22, 23) or v >> 8 != 3 or n > 16384 + 2048:
                raise Breach("bytes outside of the TLS record layer: %r" % self.buf[:40])
            if len(self.buf) < 5 + n:
                break
            self.records += 1
            self.types.append(t)
            self.buf = self.buf[5 + n:]


class Tls:
    """TLS client over memory BIOs: full control over what goes on the wire and when"""

    def __init__(self, port, r, name="test1.ssl", ver=None, cert=None, session=None, rcvbuf=None, shred=None, timeout=40, ctx=None, alpn=None, io=None):
        self.r, self.shred, self.timeout = r, shred, timeout
        if ctx is None:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
            if ver:
                ctx.minimum_version = ctx.maximum_version = ver
            if cert:
                ctx.load_cert_chain(*cert)
            if alpn:
                ctx.set_alpn_protocols(alpn)
        self.ctx = ctx
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(timeout)
        s.connect(("127.0.0.1", port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s = s
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.o = ctx.wrap_bio(self.inb, self.outb, server_hostname=name, session=session)
        self.wire = Wire()
        self.clean = False
        self.rawlimit = 65536

    def flush(self):
        d = self.outb.read()
        self.raw_send(d)

    def raw_send(self, d):
        p = 0
        while p < len(d):
            if self.shred == "tiny":
                n = self.r.choice([1, 2, 3, 5, 7, 30, 200])
            elif self.shred == "mid":
                n = self.r.choice([100, 1000, 5000, 16000])
            else:
                n = len(d)
            self.s.sendall(d[p:p + n])
            p += n
            if self.shred and self.r.random() < 0.03:
                time.sleep(0.002)

    def pull(self):
        d = self.s.recv(self.rawlimit)
        if not d:
            self.inb.write_eof()
            return False
        self.wire.feed(d)
        self.inb.write(d)
        return True

    def handshake(self):
        while True:
            try:
                self.o.do_handshake()
                break
            except ssl.SSLWantReadError:
                self.flush()
                if not self.pull():
                    raise http.Closed("connection closed during the handshake")
        return self

    def finish(self):
        self.flush()
        return self

    # ---- socket interface for http.Conn
    def settimeout(self, t):
        self.s.settimeout(t)

    def sendall(self, d):
        mv = memoryview(d)
        p = 0
        while p < len(mv):
            n = self.r.choice([1, 10, 100, 1000, 16384]) if self.shred else 16384
            n = self.o.write(mv[p:p + n])
            p += n
            if self.shred is None or self.r.random() < 0.5:
                self.flush()
        self.flush()

    def recv(self, n):
        while True:
            try:
                d = self.o.read(n)
                if not d:
                    self.clean = True
                return d
            except ssl.SSLWantReadError:
                self.flush()
                if not self.pull():
                    return b""
            except ssl.SSLEOFError:
                return b""
            except ssl.SSLZeroReturnError:
                self.clean = True
                return b""

    def setsockopt(self, *a):
        self.s.setsockopt(*a)

    def close(self):
        self.s.close()

    def shutdown_write(self):
        try:
            self.o.unwrap()
        except (ssl.SSLError, OSError):
            pass
        self.flush()


class SlowBackend:
    """reads a request body in fits and starts, then answers with its length and digest"""

    def __init__(self):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 8192)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(512)
        self.port = self.l.getsockname()[1]
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                c, _ = self.l.accept()
            except OSError:
                return
            threading.Thread(target=lambda: _quiet(self.serve, c), daemon=True).start()

    def serve(self, c):
        c.settimeout(60)
        b = b""
        while b"\r\n\r\n" not in b:
            d = c.recv(100)
            if not d:
                return c.close()
            b += d
        head, b = b.split(b"\r\n\r\n", 1)
        n = int(re.search(rb"(?i)content-length: *(\d+)", head).group(1))
        h, got = hashlib.md5(b), len(b)
        time.sleep(0.3)
        k = 0
        while got < n:
            d = c.recv(65536)
            if not d:
                break
            h.update(d)
            got += len(d)
            k += 1
            if k in (5, 20):
                time.sleep(0.2)
        out = b"len=%d md5=%s" % (got, h.hexdigest().encode())
        c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(out) + out)
        c.close()

    def stop(self):
        self.l.close()


class Env:
    def __init__(self, chk):
        self.chk = chk
        d = chk.scratch
        self.lock = threading.Lock()
        self.seen = {}

        def handler(kind):
            def h(rec):
                t = rec.target if kind == "proxy" else rec.env.get(b"REQUEST_URI", b"")
                q = t.decode("latin-1").rsplit("/", 1)[-1].split("_")
                what = q[0]
                if kind == "proxy":
                    proto = [v for k, v in rec.headers if k.lower() == b"x-forwarded-proto"]
                else:
                    proto = [rec.env.get(b"HTTPS", b"none")]
                with self.lock:
                    self.seen[t] = self.seen.get(t, 0) + 1
                body = rec.body or b""
                info = b"len=%d md5=%s proto=%s marker=%s\n" % (len(body), hashlib.md5(body).hexdigest().encode(), b",".join(proto), MARK)
                if what == "echo":
                    out = info + body
                elif what == "big":
                    out = info + blob(int(q[1]))
                else:
                    out = info
                head = (b"HTTP/1.1 200 OK\r\n" if kind == "proxy" else b"Status: 200 OK\r\n")
                head += b"Content-Type: text/plain\r\nX-From: backend\r\n"
                if what != "nolen":
                    head += b"Content-Length: %d\r\n" % len(out)
                    return [("send", head + b"\r\n" + out)] + ([("end",)] if kind == "fastcgi" else [("close",)])
                a = [("send", head + b"\r\n")]
                for i in range(5):
                    a += [("send", blob(3000 * i)), ("sleep", 0.01)]
                return a + [("send", out)] + ([("end",)] if kind == "fastcgi" else [("close",)])
            return h
        self.stubs = {k: cls(handler(k), backlog=1024) for k, cls in backends.KINDS.items()}
        for s in self.stubs.values():
            chk.cleanup(s.stop)
        doc = os.path.join(d, "doc")
        os.makedirs(os.path.join(doc, "sub"))
        for n in SIZES:
            with open(os.path.join(doc, "f%d.txt" % n), "wb") as f:
                f.write(blob(n))
        with open(os.path.join(doc, "sub/index.html"), "wb") as f:
            f.write(MARK)
        # certificates: default, fallback and a third name besides the repository's
        self.certs = {}
        for n in ("default", "fallback", "third.example", "fourth.example"):
            p = os.path.join(d, n)
            subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", p + ".key", "-out", p + ".crt", "-days", "30", "-subj", "/CN=" + n, "-addext", "subjectAltName=DNS:" + n],
                           check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            with open(p + ".pem", "w") as f:
                f.write(open(p + ".key").read() + open(p + ".crt").read())
            self.certs[n] = p + ".pem"
        def ossl(*a):
            subprocess.run(["openssl"] + list(a), check=True, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for ca in ("cca", "oca"):       # the accepted client CA, and another one with the same name
            ossl("req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", ca + ".key", "-out", ca + ".crt", "-days", "30", "-subj", "/CN=client authority")
            ossl("req", "-newkey", "rsa:2048", "-nodes", "-keyout", ca + "-cl.key", "-out", ca + "-cl.csr", "-subj", "/CN=client one/OU=unit")
            ossl("x509", "-req", "-in", ca + "-cl.csr", "-CA", ca + ".crt", "-CAkey", ca + ".key", "-CAcreateserial", "-out", ca + "-cl.crt", "-days", "30")
        global GOOD, OTHER
        GOOD, OTHER = [(os.path.join(d, c + "-cl.crt"), os.path.join(d, c + "-cl.key")) for c in ("cca", "oca")]
        os.makedirs(os.path.join(d, "sni"))
        for n, src in (("test1.ssl", CA + "/server_test1.ssl.pem"), ("test2.ssl", CA + "/server_test2.ssl.pem"), ("third.example", self.certs["third.example"])):
            with open(os.path.join(d, "sni/x_%s.pem" % n), "w") as f:
                f.write(open(src).read())
        with open(os.path.join(d, "sni/x_broken.example.pem"), "w") as f:
            f.write("not a certificate\n")
        self.ports = {k: server.free_port() for k in ("openssl", "gnutls", "sni", "multi", "verify", "optional")}
        self.fp = {}
        for n, src in (("test1.ssl", CA + "/server_test1.ssl.pem"), ("test2.ssl", CA + "/server_test2.ssl.pem"), ("default", self.certs["default"]), ("fallback", self.certs["fallback"]), ("third.example", self.certs["third.example"]), ("fourth.example", self.certs["fourth.example"])):
            pem = open(src).read()
            m = re.search(r"-----BEGIN CERTIFICATE-----.*?-----END CERTIFICATE-----", pem, re.S)
            self.fp[hashlib.sha256(ssl.PEM_cert_to_DER_cert(m.group(0) + "\n")).hexdigest()] = n
        conf = """
docroot "@D@";
index "index.html";
if req.path =^ "/proxy/" { proxy "@P@"; }
else if req.path =^ "/stream/" { buffer_request_body false; proxy "127.0.0.1:@SLOW@"; }
else if req.path =^ "/fastcgi/" { fastcgi "@F@"; }
else if req.path =^ "/scgi/" { scgi "@S@"; }
else if req.path =^ "/z/" { alias "/z/" => "@D@/"; static; deflate; }
else if req.path == "/env" { openssl.setenv ("client", "server", "client-cert"); env.set "X" => "[%{req.env[SSL_CLIENT_S_DN_CN]}]"; header.add "X-Client" => "%{req.env[X]}"; header.add "X-Srv" => "%{req.env[SSL_SERVER_S_DN_CN]}"; respond 200 => "hello"; }
else if req.path == "/cond" { if req.is_ssl? ... }
static;
"""
        conf = conf.replace('else if req.path == "/cond" { if req.is_ssl? ... }', 'else if req.path == "/cond" { if req.scheme == "https" { respond 200 => "secure"; } else { respond 200 => "plain"; } }')
        self.slow = SlowBackend()
        chk.cleanup(self.slow.stop)
        for k, v in (("@SLOW@", str(self.slow.port)), ("@D@", doc), ("@P@", self.stubs["proxy"].addr()), ("@F@", self.stubs["fastcgi"].addr()), ("@S@", self.stubs["scgi"].addr())):
            conf = conf.replace(k, v)
        P = self.ports
        setup = """io.timeout 6;
openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "ca-file" => "%s/intermediate.crt" ];
openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "client-ca-file" => "%s/cca.crt", "verify" => true, "verify-require" => true, "verify-depth" => 3 ];
openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "client-ca-file" => "%s/cca.crt", "verify" => true, "verify-depth" => 3 ];
gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "session-db-size" => 100 ];
gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s", "pemfile" => "%s", "pemfile" => "%s" ];
""" % (P["openssl"], CA, CA, P["verify"], CA, d, P["optional"], CA, d, P["gnutls"], CA, P["multi"], self.certs["default"], self.certs["third.example"], self.certs["fourth.example"])
        setup2 = """io.timeout 6;
fetch.files_static "sni" => "%s/sni/x_*.pem";
gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s", "sni-backend" => "sni", "sni-fallback-pemfile" => "%s" ];
""" % (d, P["sni"], self.certs["default"], self.certs["fallback"])
        # its own process: the certificate database and the listener reference each other, which is not released at exit
        self.srv2 = server.Server(chk, conf, setup=setup2, modules=["mod_proxy", "mod_fastcgi", "mod_scgi", "mod_deflate", "mod_openssl", "mod_gnutls"], workers=3, name="sni")
        self.srv2.start()
        self.srv = server.Server(chk, conf, setup=setup, modules=["mod_proxy", "mod_fastcgi", "mod_scgi", "mod_deflate", "mod_openssl", "mod_gnutls"], workers=3, leaks=True)
        self.srv.start()
        self.port = self.srv.port
        for p in P.values():
            self.srv.wait_port(p)


VOLATILE = {b"date"}


def norm(resp):
    return (resp.status, resp.framing, sorted((k.lower(), v) for k, v in resp.headers if k.lower() not in VOLATILE and k.lower() != b"connection"), resp.keepalive(), resp.complete, bytes(resp.body))


def requests(r):
    out = []
    n = r.choice([1, 1, 2, 3, 5])
    for i in range(n):
        last = i == n - 1
        kind = r.choice(["file", "file", "range", "big", "echo", "nolen", "head", "404", "z", "dir", "cond"])
        be = r.choice(["proxy", "fastcgi", "scgi"])
        hdr, meth, body, ver = [], "GET", b"", "1.1"
        if last and r.random() < 0.3:
            ver = "1.0"
        if kind == "file":
            t = "/f%d.txt" % r.choice(SIZES)
        elif kind == "head":
            t, meth = "/f%d.txt" % r.choice(SIZES), "HEAD"
        elif kind == "range":
            t = "/f1000000.txt"
            a = r.randrange(1000000)
            hdr.append("Range: bytes=%d-%d" % (a, min(999999, a + r.choice([0, 1, 16384, 100000]))))
        elif kind == "big":
            t = "/%s/big_%d" % (be, r.choice(SIZES))
        elif kind == "nolen":
            t = "/%s/nolen" % be
        elif kind == "echo":
            t, meth = "/%s/echo_%d" % (be, r.randrange(10 ** 9)), "POST"
            body = r.randbytes(r.choice([0, 1, 1000, 16384, 65535, 200000, 600000]))
            hdr.append("Content-Length: %d" % len(body))
        elif kind == "404":
            t = "/nosuch"
        elif kind == "z":
            t = "/z/f%d.txt" % r.choice(SIZES)
            hdr.append("Accept-Encoding: gzip")
        elif kind == "dir":
            t = "/sub"
        else:
            t = "/cond"
        if last:
            hdr.append("Connection: close")
        h = "%s %s HTTP/%s\r\nHost: test1.ssl\r\n%s\r\n" % (meth, t, ver, "".join(x + "\r\n" for x in hdr))
        out.append((kind, meth, h.encode() + body))
    return out


def play(c, reqs, pipeline, slow):
    res = []
    if pipeline:
        data = b"".join(q[2] for q in reqs)
        th = threading.Thread(target=lambda: _quiet(c.send, data), daemon=True)
        if isinstance(c.s, Tls):      # the TLS object is not thread-safe: send everything first
            c.send(data)
        else:
            th.start()
    for k, m, d in reqs:
        if not pipeline:
            c.send(d)
        if slow:
            time.sleep(0.05)
        res.append(c.read_response(m))
    # nothing may follow the last answer
    c.timeout = 40
    while c.fill():
        pass
    return res, bytes(c.buf)


def _quiet(f, *a):
    try:
        f(*a)
    except Exception:
        pass


def same(e, i, attempt=0):
    chk = e.chk
    r = random.Random(chk.seed * 7919 + i)
    reqs = requests(r)
    # large uploads and pipelining with a client that does not read could dead-lock the client
    pipeline = r.random() < 0.4 and sum(len(q[2]) for q in reqs) < 60000
    how = r.choice(["openssl", "gnutls", "sni", "multi"])
    ver = r.choice([None, ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3])
    shred = r.choice([None, None, "tiny", "mid"])
    if shred == "tiny" and sum(len(q[2]) for q in reqs) > 70000:
        shred = "mid"
    rcvbuf = r.choice([None, None, 4096])
    slow = r.random() < 0.2
    c = http.Conn(port=e.port, timeout=40)
    ref, rest = play(c, reqs, pipeline, slow)
    c.close()
    wit = dict(seed=chk.seed, item=i, kind=how, version=str(ver), shred=shred, rcvbuf=rcvbuf, pipeline=pipeline, requests=[q[2][:200].decode("latin-1") for q in reqs])
    if rest:
        return ("plain-rest", "bytes after the last response over plain HTTP", wit)
    t = None
    try:
        t = Tls(e.ports[how], r, ver=ver, shred=shred, rcvbuf=rcvbuf)
        if rcvbuf:
            t.rawlimit = 2000
        t.handshake()
        if r.random() < 0.5:
            t.finish()          # else: the Finished record goes out together with the first request
        tc = http.Conn(sock=t, timeout=40)
        try:
            got, rest = play(tc, reqs, pipeline, slow)
        except http.Timeout as ex:
            return ("tls-timeout", "over TLS (%s) no answer where plain HTTP gave one: %s" % (how, ex), wit)
        except (http.Closed, http.ProtoError) as ex:
            return ("tls-response", "over TLS (%s) the response is not the one of plain HTTP: %r" % (how, str(ex)[:200]), wit)
        if rest:
            return ("tls-rest", "bytes after the last response over TLS", wit)
        for (k, m, q), a, b in zip(reqs, ref, got):
            na, nb = norm(a), norm(b)
            if k == "cond":
                if (bytes(a.body), bytes(b.body)) != (b"plain", b"secure"):
                    return ("scheme", "req.scheme over plain HTTP: %r, over TLS: %r" % (bytes(a.body), bytes(b.body)), wit)
                continue
            if k == "dir":
                la, lb = a.get(b"location"), b.get(b"location")
                na = (na[0], na[4])
                nb = (nb[0], nb[4])
                if la is None or lb is None or la.partition(b"://")[0] != b"http" or lb.partition(b"://")[0] != b"https":
                    return ("location", "directory redirect: %r over plain HTTP, %r over TLS" % (la, lb), wit)
            if k in ("big", "echo", "nolen"):
                pa, pb = re.search(rb"proto=(\S*)", na[5]), re.search(rb"proto=(\S*)", nb[5])
                if not pa or not pb or pb.group(1).lower() not in (b"on", b"https") or pa.group(1).lower() not in (b"none", b"off", b"http"):
                    return ("backend-scheme", "the backend sees %r for plain HTTP and %r for TLS" % (pa and pa.group(1), pb and pb.group(1)), wit)
                x, y = na[5].replace(pa.group(1), b"P", 1), nb[5].replace(pb.group(1), b"P", 1)
                # chunked or with a length depends on whether the backend was done when the header was sent
                drop = lambda hs: [h for h in hs if h[0] not in (b"content-length", b"transfer-encoding")]
                na, nb = na[:1] + (drop(na[2]),) + na[3:5] + (x,), nb[:1] + (drop(nb[2]),) + nb[3:5] + (y,)
            if na != nb:
                diff = [j for j in range(len(na)) if na[j] != nb[j]]
                return ("tls-differs", "%s: response over TLS (%s) differs from plain HTTP in field %s: %r / %r" % (k, how, diff, [str(na[j])[:120] for j in diff], [str(nb[j])[:120] for j in diff]), wit)
        if not t.clean and got and got[-1].framing in ("eof", "close"):
            return ("no-close-notify", "a response that ends with the connection is not ended by a TLS close alert (%s): truncation cannot be noticed" % how, wit)
    except Breach as ex:
        return ("plaintext", str(ex), wit)
    except ssl.SSLError as ex:
        return ("tls-error", "TLS client reports %s" % ex, wit)
    except (http.Closed, OSError) as ex:
        return ("tls-closed", "TLS connection to %s failed: %r" % (how, ex), wit)
    finally:
        if t:
            chk.count("wire", "tls-records", t.wire.records)
            t.close()
    for q in reqs:
        chk.count("requests", q[0])
    chk.ok(part="same", listener=how, shape="%s/%s/%s" % (shred, ver and ver.name, "pipelined" if pipeline else "serial"))
    return None


def twice(f):
    def g(e, i):
        v = f(e, i)
        if v is None:
            return
        if v[0] in ("tls-timeout", "tls-closed"):
            w = f(e, i, 1)
            if w is None:
                e.chk.inconcl("%s %s once, not again" % (v[0], v[1]))
                return
            v = w
        e.chk.violation(*v)
    return g


def peer(t):
    return hashlib.sha256(t.o.getpeercert(binary_form=True)).hexdigest()


def sni(e, i, attempt=0):
    chk = e.chk
    r = random.Random(chk.seed * 31 + i)
    how = r.choice(["sni", "sni", "multi"])
    name = r.choice(["test1.ssl", "test2.ssl", "third.example", None, "unknown.example", "broken.example", "x" * r.choice([1, 50, 63]) + ".org", "a.test1.ssl", "test1.ssl.x"])
    if how == "multi":
        name = r.choice(["third.example", "fourth.example", "default", None, "x.org"])
    known = name in ("test1.ssl", "test2.ssl", "third.example", "fourth.example", "default")
    if how == "sni":
        want = name if known else "default" if name is None else "fallback"
    else:
        want = name if known else None    # the first, or any: not specified for foreign names
    t = None
    wit = dict(seed=chk.seed, item=i, kind=how, name=name)
    try:
        t = Tls(e.ports[how], r, name=name, ver=r.choice([None, ssl.TLSVersion.TLSv1_2]), shred=r.choice([None, "tiny", "mid"]), alpn=r.choice([None, ["http/1.1"], ["h2", "http/1.1"]]))
        t.handshake().finish()
        got = e.fp.get(peer(t), "?")
        if want is not None and got != want:
            return ("sni", "client asked for %r, expected certificate %r, got %r" % (name, want, got), wit)
        if t.o.selected_alpn_protocol() not in (None, "http/1.1"):
            return ("alpn", "server negotiated %r" % t.o.selected_alpn_protocol(), wit)
        c = http.Conn(sock=t, timeout=40)
        c.send(b"GET /f1000.txt HTTP/1.1\r\nHost: anything\r\nConnection: close\r\n\r\n")
        x = c.read_response("GET")
        if x.status != 200 or bytes(x.body) != blob(1000):
            return ("sni-response", "wrong response %r" % x, wit)
    except Breach as ex:
        return ("plaintext", str(ex), wit)
    except (ssl.SSLError, http.ProtoError) as ex:
        return ("sni-error", "handshake with server name %r: %s" % (name, ex), wit)
    except (http.Closed, http.Timeout, OSError) as ex:
        return ("tls-closed", "connection with server name %r failed: %r" % (name, ex), wit)
    finally:
        if t:
            t.close()
    chk.ok(part="sni", cert="%s/%s" % (how, want))


def resume(e, i, attempt=0):
    """session resumption gives the same service (and the same client identity)"""
    chk = e.chk
    r = random.Random(chk.seed * 37 + i)
    how = r.choice(["openssl", "gnutls", "verify"])
    ver = r.choice([ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3])
    cert = GOOD if how == "verify" else None
    wit = dict(seed=chk.seed, item=i, kind=how, version=str(ver))
    sess, ctx = None, None
    for k in range(3):
        t = None
        try:
            t = Tls(e.ports[how], r, ver=ver, cert=cert, session=sess, ctx=ctx)
            ctx = t.ctx
            t.handshake().finish()
            reused = t.o.session_reused
            c = http.Conn(sock=t, timeout=40)
            c.send(b"GET /env HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n")
            x = c.read_response("GET")
            sess = t.o.session
            if x.status != 200 or bytes(x.body) != b"hello":
                return ("resume-response", "connection %d (resumed %s): %r" % (k, reused, x), wit)
            if how == "verify" and x.get(b"X-Client") != b"[%s]" % CLIENT:
                return ("resume-client", "client identity %r on connection %d (resumed %s), expected %r" % (x.get(b"X-Client"), k, reused, CLIENT), wit)
            chk.count("resume", "%s %s" % (how, "reused" if reused else "fresh"))
        except Breach as ex:
            return ("plaintext", str(ex), wit)
        except (ssl.SSLError, http.ProtoError) as ex:
            return ("resume-error", "connection %d: %s" % (k, ex), wit)
        except (http.Closed, http.Timeout, OSError) as ex:
            return ("tls-closed", "connection %d with %s failed: %r" % (k, how, ex), wit)
        finally:
            if t:
                t.close()
    chk.ok(part="resume", listener=how, version=ver.name)


CLIENT = b"client one"
GOOD = OTHER = None


def verify(e, i, attempt=0):
    chk = e.chk
    r = random.Random(chk.seed * 41 + i)
    how = r.choice(["verify", "optional"])
    ver = r.choice([ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3])
    who = r.choice(["none", "good", "good", "selfsigned", "other CA", "session"])
    cert = {"none": None, "good": GOOD, "selfsigned": (os.path.join(chk.scratch, "default.crt"), os.path.join(chk.scratch, "default.key")),
            "other CA": OTHER}.get(who)
    ok = who == "good" or (who in ("none", "session") and how == "optional")
    wit = dict(seed=chk.seed, item=i, kind=how, version=str(ver), certificate=who)
    t = None
    x = None
    err = None
    try:
        sess = ctx = None
        if who == "session":    # a session of the listener that does not insist on a certificate
            t = Tls(e.ports["optional"], r, ver=ver, timeout=20)
            t.handshake().finish()
            c = http.Conn(sock=t, timeout=20)
            c.send(b"GET /env HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n")
            c.read_response("GET")
            sess, ctx = t.o.session, t.ctx
            t.close()
        t = Tls(e.ports[how], r, ver=ver, cert=cert, timeout=20, session=sess, ctx=ctx)
        t.handshake().finish()
        c = http.Conn(sock=t, timeout=20)
        c.send(b"GET /env HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n")
        x = c.read_response("GET")
    except Breach as ex:
        return ("plaintext", str(ex), wit)
    except (ssl.SSLError, http.ProtoError, http.Closed, OSError) as ex:
        err = repr(ex)
    except http.Timeout as ex:
        return ("tls-timeout", "client with certificate %s: %s" % (who, ex), wit)
    finally:
        if t:
            t.close()
    if ok:
        if x is None or x.status != 200:
            return ("verify-refused", "client with certificate %r was not served: %s" % (who, err or x), wit)
        want = b"[%s]" % (CLIENT if who == "good" else b"")
        if x.get(b"X-Client") != want:
            return ("verify-env", "client certificate %r: SSL_CLIENT_S_DN_CN is %r, expected %r" % (who, x.get(b"X-Client"), want), wit)
    elif x is not None:
        return ("verify-bypass", "client with certificate %r got a response (%d) from a listener that requires a valid one" % (who, x.status), wit)
    chk.ok(part="verify", who="%s/%s" % (how, who), version=ver.name)


def cert12(types_buf):
    """leaf certificate of a cleartext TLS 1.2 server flight"""
    hs = b""
    while len(types_buf) >= 5:
        t, v, n = struct.unpack(">BHH", types_buf[:5])
        if t == 22:
            hs += types_buf[5:5 + n]
        types_buf = types_buf[5 + n:]
    while len(hs) >= 4:
        t, n = hs[0], int.from_bytes(hs[1:4], "big")
        if t == 11 and len(hs) >= 4 + n and n > 6:
            m = int.from_bytes(hs[7:10], "big")
            return hashlib.sha256(hs[10:10 + m]).hexdigest()
        hs = hs[4 + n:]
    return None


EVIL = [b"../../../../../etc/passwd", b"x/../../x_test1.ssl", b"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", b"test1.ssl\x00.evil.example", b"%s%n%s%n%s%n.org", b"....", b"\xff\xfe\xfd.example.org", b"*", b"xn--zz--z.org", b"test1.ssl/../test2.ssl", b"a" * 250, b"-", b".", b"test1.ssl.", b"TEST1.SSL"]


def hello(name, ver=ssl.TLSVersion.TLSv1_2):
    """a ClientHello asking for arbitrary bytes as server name"""
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    ctx.verify_mode = ssl.CERT_NONE
    if ver:
        ctx.minimum_version = ctx.maximum_version = ver
    ph = ("q" * min(60, len(name)) + ("." + "q" * 59) * 5)[:max(1, len(name))]
    if ph.endswith("."):
        ph = ph[:-1] + "q"
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    ob = ctx.wrap_bio(i, o, server_hostname=ph)
    try:
        ob.do_handshake()
    except ssl.SSLWantReadError:
        pass
    d = o.read()
    assert ph.encode() in d
    return d.replace(ph.encode(), name, 1) if len(ph) == len(name) else None


def records(d):
    out = []
    while len(d) >= 5:
        n = struct.unpack(">H", d[3:5])[0]
        out.append(d[:5 + n])
        d = d[5 + n:]
    return out


def hostile(e, i, attempt=0):
    """broken handshakes, tampered records, aborts: no crash, no plain text, no execution of tampered requests"""
    chk = e.chk
    r = random.Random(chk.seed * 43 + i)
    how = r.choice(["openssl", "gnutls", "sni", "multi", "verify"])
    mode = r.choice(["garbage", "flip", "evilname", "snilist", "refragment", "plain", "trunc", "abort", "tamper", "tamper", "alert", "halfclose"])
    wit = dict(seed=chk.seed, item=i, kind=how, mode=mode)
    port = e.ports[how]
    cert = GOOD if how == "verify" else None
    w = Wire()
    s = None
    try:
        if mode in ("garbage", "flip", "evilname", "snilist", "refragment", "plain", "trunc"):
            s = socket.create_connection(("127.0.0.1", port), timeout=15)
            raw = b""
            if mode == "garbage":
                d = r.randbytes(r.choice([1, 5, 6, 100, 3000, 20000]))
                if r.random() < 0.6:
                    d = struct.pack(">BHH", r.choice([20, 21, 22, 22, 22, 23, 24]), r.choice([0x300, 0x301, 0x303]), r.choice([0, 1, 4, len(d), 16384, 65535])) + d
            elif mode == "plain":
                d = b"GET /f1000.txt HTTP/1.1\r\nHost: test1.ssl\r\nConnection: close\r\n\r\n"
            else:
                name = r.choice(EVIL) if mode == "evilname" else b"test2.ssl"
                d = hello(name, r.choice([ssl.TLSVersion.TLSv1_2, None]) if mode != "evilname" else ssl.TLSVersion.TLSv1_2)
                if mode == "flip":
                    b = bytearray(d)
                    for _ in range(r.choice([1, 1, 2, 5, 20])):
                        p = r.randrange(len(b))
                        b[p] = r.choice([b[p] ^ (1 << r.randrange(8)), 0, 255, r.randrange(256)])
                    d = bytes(b)
                elif mode == "snilist":          # entries and lengths that do not fill the extension
                    b = bytearray(d)
                    p = d.index(name)
                    n = r.randrange(len(name))
                    b[p - 2:p] = struct.pack(">H", n)
                    if n + 3 < len(name):
                        b[p + n:p + n + 3] = struct.pack(">BH", r.choice([0, 0, 1, 255]), r.choice([0, len(name) - n - 3, 1, 65535]))
                    d = bytes(b)
                elif mode == "trunc":
                    d = d[:r.randrange(1, len(d))]
                elif mode == "refragment":       # one handshake message in many records
                    body = d[5:]
                    out, p = [], 0
                    while p < len(body):
                        n = r.choice([1, 2, 3, 10, 40, 100])
                        out.append(struct.pack(">BHH", 22, 0x301, len(body[p:p + n])) + body[p:p + n])
                        p += n
                    d = b"".join(out)
            cut = r.choice([len(d), len(d), 3, 5, 6, 11])
            s.sendall(d[:cut])
            if cut < len(d):
                time.sleep(0.02)
                s.sendall(d[cut:])
            if mode in ("garbage", "flip", "trunc") and r.random() < 0.5:
                if r.random() < 0.5:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            else:
                if mode == "plain":
                    _quiet(s.shutdown, socket.SHUT_WR)
                t0 = time.time()
                s.settimeout(1.5)
                try:
                    while time.time() - t0 < 2:
                        x = s.recv(65536)
                        if not x:
                            break
                        raw += x
                        if mode == "plain" and (raw[:5] == b"HTTP/" or MARK in raw):
                            return ("plaintext", "the TLS port %s answers plain HTTP" % how, wit)
                        if mode != "plain":
                            w.feed(x)
                        if mode in ("evilname", "refragment") and w.types and b"\x0e\x00\x00\x00" in raw[-200:]:
                            break
                except socket.timeout:
                    pass
            if mode in ("evilname", "refragment") and how == "sni":
                fp = cert12(raw)
                if fp is not None:
                    got = e.fp.get(fp, "?")
                    if mode == "evilname" and how == "sni" and b"\x00" not in name and name.rstrip(b".").lower() not in (b"test1.ssl", b"test2.ssl") and got != "fallback":
                        return ("sni-evil", "server name %r got the certificate %r" % (name, got), dict(wit, name=repr(name)))
                    if mode == "refragment" and got != "test2.ssl":
                        return ("sni-refragment", "ClientHello for test2.ssl in several records got the certificate %r" % got, wit)
                    chk.count("hostile certificates", mode)
        else:
            t = Tls(port, r, cert=cert, ver=r.choice([ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3]), timeout=15)
            s = t.s
            w = t.wire
            uri = "/proxy/echo_t%d_%d" % (i, attempt)
            body = r.randbytes(r.choice([0, 10, 3000, 40000]))
            req = ("POST %s HTTP/1.1\r\nHost: a\r\nContent-Length: %d\r\n\r\n" % (uri, len(body))).encode() + body
            if mode == "abort":
                stop = r.choice(["hs", "req", "resp"])
                if stop == "hs":
                    try:
                        t.o.do_handshake()
                    except ssl.SSLWantReadError:
                        pass
                    d = t.outb.read()
                    t.s.sendall(d)
                    t.s.settimeout(5)
                    got = b""
                    n = r.choice([0, 1, 100, 3000])
                    while len(got) < n:
                        x = t.s.recv(n - len(got))
                        if not x:
                            break
                        got += x
                    t.wire.feed(got)
                else:
                    t.handshake().finish()
                    if stop == "req":
                        t.o.write(req)
                        d = t.outb.read()
                        t.s.sendall(d[:r.randrange(len(d) + 1)])
                    else:
                        t.o.write(b"GET /f1000000.txt HTTP/1.1\r\nHost: a\r\n\r\n")
                        t.flush()
                        n = r.choice([1, 1000, 100000, 500000])
                        while n > 0 and t.pull():
                            n -= 60000
                if r.random() < 0.5:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                elif r.random() < 0.5:
                    _quiet(s.shutdown, socket.SHUT_WR)
                    s.settimeout(10)
                    while t.pull():
                        pass
            elif mode == "tamper":
                t.handshake().finish()
                t.o.write(req)
                d = bytearray(t.outb.read())
                p = 5 + r.randrange(min(len(d), 16000) - 5)
                d[p] ^= 1 << r.randrange(8)
                t.s.sendall(bytes(d))
                t.s.settimeout(4)
                app = b""
                try:
                    while True:
                        x = t.recv(65536)
                        if not x:
                            break
                        app += x
                except (ssl.SSLError, socket.timeout, ConnectionError):
                    pass
                if app:
                    return ("tampered", "a request with a modified record got an answer: %r" % app[:80], wit)
                with e.lock:
                    if e.seen.get(uri.encode()):
                        return ("tampered", "a request with a modified record reached the backend", wit)
            elif mode == "alert":
                t.handshake().finish()
                t.raw_send(struct.pack(">BHHBB", 21, 0x303, 2, r.choice([1, 2, 9]), r.randrange(120)))
                t.s.settimeout(2)
                try:
                    while t.pull():
                        pass
                except (socket.timeout, ConnectionError):
                    pass
            else:
                # the client closes its side right after the request: answer or clean end, nothing else
                t.handshake().finish()
                t.o.write(b"GET /f100000.txt HTTP/1.1\r\nHost: a\r\n\r\n")
                if r.random() < 0.5:
                    t.flush()
                t.shutdown_write()
                t.s.settimeout(15)
                try:
                    while t.pull():
                        pass
                except ConnectionError:
                    pass
    except Breach as ex:
        return ("plaintext", "%s: %s" % (mode, ex), wit)
    except (http.Closed, ConnectionError, ssl.SSLError):
        pass
    except socket.timeout:
        if mode in ("halfclose",):
            return ("tls-timeout", "%s: connection neither answered nor closed" % mode, wit)
    finally:
        if s:
            s.close()
    chk.ok(part="hostile", mode=mode, listener=how)


def uploads(e, rnd):
    """bursts of large uploads, all at once: none may stall"""
    chk = e.chk
    todo = []
    for how in ("plain", "openssl", "gnutls", "multi", "sni"):
        for ver in (ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3):
            for path in (b"/proxy/x", b"/scgi/echo", b"/stream/x"):
                for k in range(chk.n(8)):
                    todo.append((how, ver, path, (2500000 if path == b"/stream/x" else 450000) + 97 * k * k + 150000 * (k % 3)))

            for k in range(chk.n(24)):      # responses that end with the connection
                todo.append((how, ver, b"/fastcgi/nolen", 0))

    def once(how, ver, path, n, k):
        r = random.Random(k)
        t = None
        try:
            if how == "plain":
                c = http.Conn(port=e.port, timeout=40)
            else:
                t = Tls(e.ports[how], r, ver=ver)
                t.handshake().finish()
                c = http.Conn(sock=t, timeout=40)
            b = r.randbytes(n)
            if n == 0:
                c.send(b"GET %s HTTP/1.0\r\nHost: test1.ssl\r\n\r\n" % path)
            else:
                c.send(b"POST %s_%d HTTP/1.1\r\nHost: test1.ssl\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (path, k, n) + b)
            x = c.read_response("POST")
            while c.fill():
                pass
            if x.status != 200 or b"len=%d md5=%s" % (n, hashlib.md5(b).hexdigest().encode()) not in bytes(x.body):
                return "wrong answer %d %r" % (x.status, bytes(x.body)[:60])
            if t is not None and not t.clean:
                return "closed without close alert"
            return None
        except (http.Closed, http.Timeout, http.ProtoError, OSError, ssl.SSLError) as ex:
            return "%s: %s" % (type(ex).__name__, ex)
        finally:
            if t is not None:
                t.close()

    bad = []

    def job(j):
        k, (how, ver, path, n) = j
        err = once(how, ver, path, n, k)
        if err and not (e.srv.alive() and e.srv2.alive()):
            return
        if err:
            bad.append((how, str(ver), path.decode(), n, err))
        else:
            chk.ok(part="uploads", listener=how, path=path.decode())
    check.parallel(16, job, list(enumerate(todo)))
    return bad


def run(chk):
    build.build("asan")
    e = Env(chk)
    only = chk.args.only
    jobs = []
    for name, f, n in (("same", same, 260), ("sni", sni, 60), ("resume", resume, 30), ("verify", verify, 40), ("hostile", hostile, 260)):
        if only and name not in only.split(","):
            continue
        jobs += [(twice(f), i) for i in range(chk.n(n))]
    random.Random(chk.seed).shuffle(jobs)
    check.parallel(16, lambda j: j[0](e, j[1]), jobs)
    if not only or "uploads" in only.split(","):
        bad = uploads(e, 0)
        if bad:
            again = uploads(e, 1) or uploads(e, 2) or uploads(e, 3)
            if again:
                chk.violation("upload-stall", "%d large uploads were not answered: %r" % (len(bad), again[0]), {"first": bad[:20], "second": again[:20]})
            else:
                chk.inconcl("%d uploads failed once: %r" % (len(bad), bad[0]))
    # after all that the server still serves every listener and has let go of the connections
    for k, p in e.ports.items():
        cert = GOOD if k == "verify" else None
        try:
            t = Tls(p, random.Random(1), cert=cert)
            t.handshake().finish()
            c = http.Conn(sock=t, timeout=40)
            c.send(b"GET /f1000.txt HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n")
            x = c.read_response("GET")
            if x.status != 200 or bytes(x.body) != blob(1000):
                chk.violation("after", "listener %s does not serve after the hostile clients" % k, {"resp": repr(x)})
            t.close()
            chk.ok()
        except (OSError, http.Closed, http.Timeout, ssl.SSLError) as ex:
            if e.srv.alive() and e.srv2.alive():
                chk.violation("after", "listener %s does not serve after the hostile clients: %r" % (k, ex), {})
    for s in (e.srv, e.srv2):
        s.stop()
        s.verify("P26", expect_alive=False)


if __name__ == "__main__":
    c = check.Check("P26", rule="one evaluation = one TLS connection (or sequence of resumed ones) whose responses, certificate, wire bytes and outcome were judged; distinct = part x listener x request kind / certificate / attack")
    check.run(c, run, min_evals=200)
