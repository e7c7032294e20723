"""Hostile peers for P01: fuzzing clients and fuzzing backends, run as separate processes.

    python3 -m vf.fuzz client  SEED SESSIONS SECONDS THREADS DUMP PLAIN:OPENSSL:GNUTLS
    python3 -m vf.fuzz backend SEED DUMP            (prints four ports: proxy fastcgi scgi memcached)

Both keep a ring of what they sent; it is written to DUMP when the server is gone (client) or on SIGTERM (backend)."""
import base64
import collections
import json
import os
import random
import select
import signal
import socket
import ssl
import struct
import sys
import threading
import time

TARGETS = [b"/", b"/a.txt", b"/big.bin", b"/big.bin", b"/sub/", b"/sub", b"/list/", b"/list/?C=N", b"/z/a.txt", b"/z/big.txt", b"/flv/v.flv?start=%d", b"/flv/v.flv",
           b"/auth/a.txt", b"/dig/a.txt", b"/acc/a.txt", b"/redir/x%20y", b"/rw/a/b?c=d", b"/rwr/%2e%2e/x", b"/proxy/x", b"/proxy/x?y=z", b"/fcgi/x",
           b"/scgi/x", b"/bal/x", b"/sqf/x", b"/mem/k%d", b"/mst/k%d", b"/cache/x%d", b"/limit/x", b"/thr/big.bin", b"/pool/big.bin", b"/prog/x?X-Progress-ID=aa%d",
           b"/progress?X-Progress-ID=aa%d", b"/progress?format=jsonp&callback=f", b"/status", b"/status?format=plain", b"/status?mode=runtime", b"/dbg", b"/dbg?connections", b"/exp/a.txt",
           b"/~bob/a.txt", b"/fortune", b"/fortune/h", b"/lua/x", b"/luaf/a.txt", b"/luain/x", b"/luamem/k%d", b"/xs/x", b"/wsgi/a/b", b"/html/page", b"/up/x", b"/upn/x", b"/upnf/x", b"/prof",
           b"/err/404", b"/pat/%24%5b", b"/cond/x", b"/secd/%s/a.txt", b"/pi/a.txt/more/path", b"/nope", b"*", b"http://host.example/a.txt", b"/longer/%s", b"/etagc/x%d", b"/async/a.txt"]
METHODS = [b"GET"] * 12 + [b"HEAD"] * 4 + [b"POST"] * 8 + [b"PUT", b"OPTIONS", b"DELETE", b"TRACE", b"CONNECT", b"PROPFIND", b"get", b"G", b"", b"VERSION-CONTROL", b"X" * 40]
VERS = [b"HTTP/1.1"] * 14 + [b"HTTP/1.0"] * 4 + [b"HTTP/0.9", b"HTTP/2.0", b"HTTP/1.", b"", b"HTTP/11.1", b"http/1.1"]
HDRS = [
    b"Range: bytes=%d-%d", b"Range: bytes=-%d", b"Range: bytes=%d-", b"Range: bytes=0-0,5-9,%d-%d,-1", b"Range: bytes=" + b",".join(b"%d-%d" % (i, i) for i in range(0, 60, 2)),
    b"Range: bytes=99999999999999999999-", b"Range: items=0-1", b"Range: bytes=", b"Range: bytes=,,1-2,", b"If-Range: \"abc\"",
    b"If-Modified-Since: Sun, 06 Nov 1994 08:49:37 GMT", b"If-Modified-Since: %s", b"If-Modified-Since: Sun, 99 Foo 99999999999 99:99:99 GMT", b"If-None-Match: *",
    b"If-None-Match: \"a\", W/\"b\", \"%s\"", b"If-None-Match: \"", b"If-None-Match: ,,,", b"Accept-Encoding: gzip, deflate;q=0.5, bzip2;q=%d", b"Accept-Encoding: gzip",
    b"Accept-Encoding: bzip2", b"Accept-Encoding: deflate", b"Accept-Encoding: *;q=0", b"Accept-Encoding: %s", b"Connection: close", b"Connection: keep-alive", b"Connection: upgrade, %s",
    b"Connection: keep-alive, close, Upgrade", b"Upgrade: websocket", b"Expect: 100-continue", b"Expect: 200-ok", b"Cookie: a=b; c=\"d\"; %s", b"Referer: http://x/", b"User-Agent: \x80\xff%s",
    b"X-Forwarded-For: 1.2.3.4, %s", b"X-Forwarded-For: 1:2::3", b"X-Forwarded-Proto: https", b"Authorization: Basic %B", b"Authorization: Basic dXNlcjpwYXNz", b"Authorization: Basic ====",
    b"Authorization: Basic", b"Authorization: Digest username=\"x\"", b"Host: two.example", b"Host:", b"Host: [::1]:80", b"Host: %s", b"Host: a" + b".b" * 60, b"Content-Type: text/html; charset=%s",
    b"X-Progress-ID: aa%d", b"X-Empty:", b"X-Fold: a\r\n b\r\n\tc", b"X-Quote: \"a\\\"b\"", b"X-Quote: \"unterminated", b"X-Long: " + b"v" * 3000, b" : x", b"NoColon", b"X\x00Y: z", b"X: a\x00b", b":novalue",
    b"Content-Length: %d", b"Content-Length: -1", b"Content-Length: 18446744073709551615", b"Content-Length: 9223372036854775807", b"Content-Length: 1x", b"Content-Length:", b"Transfer-Encoding: chunked",
    b"Transfer-Encoding: identity", b"Transfer-Encoding: gzip, chunked", b"TE: trailers", b"Trailer: X", b"X-Lua: %s", b"X-Mode: %d", b"Via: 1.1 a", b"Keep-Alive: 5", b"Proxy-Connection: close"]
if os.environ.get("VF_FUZZ_TARGETS"):
    TARGETS = [t for t in TARGETS if any(x.encode() in t for x in os.environ["VF_FUZZ_TARGETS"].split(","))]
NUMS = [0, 1, 2, 5, 127, 128, 255, 256, 4095, 4096, 16383, 16384, 65535, 65536, 65537, 299999, 300000, 300001, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 25]
TOKS = [b"\r\n", b"\n", b"\r", b"\x00", b" ", b"\t", b"%00", b"%2e%2e/", b"../", b"//", b"\xff", b"\x80", b"%", b"%zz", b"\"", b"\\", b":", b";", b",", b"0", b"ffffffff", b"-1", b"=", b"?", b"#", b"&", b"[", b"]",
        b"$1", b"%1", b"\x7f", b"\r\n\r\n", b"\r\n ", b"A" * 300, b"%41" * 100, b"/" * 200, b"\xc3\xa9", b"Status: 500", b"{}", b"chunked"]


def rtok(r):
    k = r.random()
    if k < 0.5:
        return r.choice(TOKS)
    if k < 0.8:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 8, 40])))
    return bytes(r.choice(b"abcXYZ019-_.~/%:;,= \"") for _ in range(r.choice([1, 5, 20, 200, 2000])))


def fill(r, t):
    while b"%d" in t:
        t = t.replace(b"%d", b"%d" % (r.choice(NUMS) if r.random() < 0.4 else r.randrange(12)), 1)
    while b"%s" in t:
        t = t.replace(b"%s", rtok(r).replace(b"%s", b""), 1)
    while b"%B" in t:
        t = t.replace(b"%B", base64.b64encode(bytes(r.randrange(256) for _ in range(r.randrange(40)))) if r.random() < 0.7 else rtok(r).replace(b"%B", b""), 1)
    return t


def mutate(r, b, n=None):
    b = bytearray(b)
    for _ in range(n if n is not None else r.choice([0, 0, 0, 1, 1, 2, 5])):
        if not b:
            b += rtok(r)
            continue
        p = r.randrange(len(b))
        k = r.random()
        if k < 0.25:
            b[p] = r.randrange(256)
        elif k < 0.4:
            b[p] ^= 1 << r.randrange(8)
        elif k < 0.6:
            b[p:p] = rtok(r)
        elif k < 0.75:
            del b[p:p + r.choice([1, 1, 2, 4, 16, 100])]
        elif k < 0.85:
            q = r.randrange(len(b))
            b[p:p] = b[q:q + r.choice([1, 4, 30, 200])]
        elif k < 0.93:
            del b[p:]
        else:
            b[p:p + 1] = r.choice([b"0", b"9", b"f", b"\r", b"\n", b" ", b":", b"\x00"])
    return bytes(b)


def chunked(r, body):
    o = b""
    while body:
        n = r.choice([1, 2, 10, 100, 4096, 70000])
        o += r.choice([b"%x\r\n", b"%X\r\n", b"0%x\r\n", b"0000%x\r\n"]) % len(body[:n]) + body[:n] + b"\r\n"
        body = body[n:]
    o += r.choice([b"0\r\n\r\n"] * 5 + [b"0\r\nT: x\r\n\r\n", b"00\r\n\r\n", b"0\r\n", b"-1\r\n", b"ffffffffffffffff\r\n", b"7fffffffffffffff\r\nx", b"8000000000000000\r\n", b"", b"0;ext=\"x\"\r\n\r\n"])
    return o


def request(r):
    tame = r.random() < 0.6         # reaches the modules; the others exercise the parsers
    m, t, v = r.choice(METHODS[:20] if tame else METHODS), fill(r, r.choice(TARGETS)), r.choice(VERS[:16] if tame else VERS)
    if b"?" in t and r.random() < 0.1:
        t += b"&" + rtok(r)
    hs = [] if r.random() < 0.05 and not tame else [r.choice([b"Host: localhost", b"Host: localhost", b"Host: vh1.example", b"host:VH2.example:80", b"Host: a.b.wild.example."])]
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 6])):
        h = fill(r, r.choice(HDRS))
        if not (tame and (h.lower().startswith((b"host:", b"content-length", b"transfer-enc", b"expect: 2", b" ", b":", b"nocolon", b"x\0", b"x: a\0", b"x-quote: \"un")))):
            hs.append(h)
    if r.random() < 0.02:
        hs += [b"H%d: %s" % (i, b"x" * r.choice([1, 100])) for i in range(r.choice([100, 400, 900]))]
    body = b""
    if m in (b"POST", b"PUT") or (r.random() < 0.05 and not tame):
        n = r.choice([0, 1, 10, 100, 5000, 70000, 300000])
        body = (b"body-%d " % r.randrange(99)) * (n // 8 + 1)
        body = body[:n]
        if r.random() < 0.5:
            hs.append(b"Content-Length: %d" % (len(body) + (0 if tame else r.choice([0] * 8 + [1, -1, 100]))))
        else:
            hs.append(b"Transfer-Encoding: chunked")
            body = chunked(r, body)
            if r.random() < 0.3:
                body = mutate(r, body)
    r.shuffle(hs)
    head = m + b" " + t + b" " + v + b"\r\n" + b"".join(h + r.choice([b"\r\n"] * 20 + [b"\n"]) for h in hs) + b"\r\n"
    if not tame and r.random() < 0.6:
        head = mutate(r, head)
    return head + body


class Ring:
    def __init__(self, n=60):
        self.d = collections.deque(maxlen=n)
        self.lock = threading.Lock()

    def add(self, what, data):
        with self.lock:
            self.d.append((round(time.time(), 3), what, data[:3000]))

    def dump(self, path):
        with self.lock:
            l = [(t, w, d.decode("latin-1")) for t, w, d in self.d]
        with open(path, "w") as f:
            json.dump(l, f)


def rst(s):
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()
    except OSError:
        pass


class Gone(Exception):
    pass


class Client:
    def __init__(self, seed, ports, ring, stats):
        self.r = random.Random(seed)
        self.ports, self.ring, self.stats = ports, ring, stats
        self.ctx = []
        for lo, hi in ((ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_2), (ssl.TLSVersion.TLSv1_3, ssl.TLSVersion.TLSv1_3)):
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname = False
            c.verify_mode = ssl.CERT_NONE
            c.minimum_version, c.maximum_version = lo, hi
            self.ctx.append(c)

    def count(self, k):
        with self.stats[1]:
            self.stats[0][k] = self.stats[0].get(k, 0) + 1

    def connect(self, port):
        r = self.r
        s = socket.socket()
        if r.random() < 0.15:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
        s.settimeout(10)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try:
            s.bind(("127.%d.%d.%d" % (r.randrange(1, 3), r.randrange(4), r.randrange(1, 250)), 0))
            s.connect(("127.0.0.1", port))
        except ConnectionRefusedError:
            s.close()
            raise Gone()
        return s

    def segs(self, data):
        r = self.r
        k = r.random()
        if k < 0.5 or len(data) < 2:
            return [data]
        if k < 0.65 and len(data) < 400:
            return [data[i:i + 1] for i in range(len(data))]
        cuts = sorted(r.randrange(1, len(data)) for _ in range(r.choice([1, 1, 2, 5])))
        return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]

    def rd(self, s, secs, limit=1 << 22):
        """read until quiet; counts status lines"""
        got = 0
        end = time.time() + secs
        s.setblocking(False)
        while got < limit:
            w = end - time.time()
            if w <= 0 or not select.select([s], [], [], w)[0]:
                return got
            try:
                b = s.recv(65536)
            except (BlockingIOError, InterruptedError):
                continue
            except OSError:
                return -1
            if not b:
                return -1
            if not got:
                self.count("resp:" + (b[9:12].decode("latin-1") if b.startswith(b"HTTP/1.") else "tls" if b[:1] in b"\x14\x15\x16\x17" else "other"))
            got += len(b)
            end = max(end, time.time() + 0.05)
        return got

    def send(self, s, data):
        """write while reading, never blocking for long"""
        s.setblocking(False)
        end = time.time() + 3
        while data and time.time() < end:
            rr, ww, _ = select.select([s] if self.r.random() < 0.9 else [], [s], [], 1)
            if rr:
                try:
                    if not s.recv(65536):
                        return False
                except BlockingIOError:
                    pass
            if ww:
                try:
                    data = data[s.send(data[:262144]):]
                except BlockingIOError:
                    pass
            elif not rr:
                return False
        return not data

    def ending(self, s):
        r = self.r
        k = r.random()
        if k < 0.45:
            self.rd(s, 0.15)
            s.close()
            return "read-close"
        if k < 0.6:
            s.shutdown(socket.SHUT_WR)
            self.rd(s, 0.15)
            s.close()
            return "half-close"
        if k < 0.8:
            if r.random() < 0.5:
                self.rd(s, 0.02, r.choice([1, 1000, 100000]))
            rst(s)
            return "rst"
        if k < 0.95:
            s.close()
            return "close"
        time.sleep(0.3)
        rst(s)
        return "stall-rst"

    def plain(self):
        r = self.r
        s = self.connect(self.ports[0])
        try:
            n = r.choice([1, 1, 1, 2, 3, 8])
            for _ in range(n):
                q = request(r)
                self.ring.add("plain", q)
                for g in self.segs(q):
                    if not self.send(s, g):
                        break
                    if r.random() < 0.3:
                        time.sleep(0.001)
                if r.random() < 0.5 and self.rd(s, 0.05) < 0:
                    break
            self.count("end:" + self.ending(s))
        except OSError:
            rst(s)
        self.count("plain:%d" % n)

    def garbage(self):
        r = self.r
        p = r.choice(self.ports)
        s = self.connect(p)
        try:
            k = r.random()
            if k < 0.4 or p == self.ports[0]:
                q = b"".join(rtok(r) for _ in range(r.choice([1, 3, 30])))
            elif k < 0.8:
                q = mutate(r, self.hello(), r.choice([1, 2, 5]))
            else:
                q = struct.pack(">BHH", r.choice([20, 21, 22, 23, 24, 99]), r.choice([0x300, 0x301, 0x303, 0xffff]), r.choice([0, 1, 5, 100, 16384, 16640, 65535])) + rtok(r) * r.choice([1, 20])
            self.ring.add("garbage", q)
            for g in self.segs(q):
                if not self.send(s, g):
                    break
            self.ending(s)
        except OSError:
            rst(s)
        self.count("garbage")

    def hello(self):
        r = self.r
        i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
        ob = r.choice(self.ctx).wrap_bio(i, o, server_hostname=r.choice(["test1.ssl", "vh1.example", "x" * 60 + ".example", "a.b.c.d"]))
        try:
            ob.do_handshake()
        except ssl.SSLError:
            pass
        return o.read()

    def tls(self):
        """handshake (cut or mutated at a random flight), then fuzzed requests, then mutated or truncated records"""
        r = self.r
        w = r.choice((1, 2))
        s = self.connect(self.ports[w])
        i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
        ob = r.choice(self.ctx).wrap_bio(i, o, server_hostname=r.choice(["test1.ssl", "test2.ssl", "vh1.example", "unknown.example"]))
        broken = r.random() < 0.2
        stage = 0

        def pump(wait=True):
            b = o.read()
            if b:
                if broken and r.random() < 0.5:
                    b = mutate(r, b, r.choice([1, 1, 3]))
                for g in self.segs(b):
                    if not self.send2(s, g, i):
                        raise OSError("closed")
            if wait:
                if not select.select([s], [], [], 1.0)[0]:
                    raise OSError("quiet")
                x = s.recv(65536)
                if not x:
                    raise OSError("eof")
                i.write(x)
        try:
            while True:
                try:
                    ob.do_handshake()
                    break
                except ssl.SSLWantReadError:
                    stage += 1
                    if r.random() < 0.04:
                        rst(s)
                        self.count("tls:abort-handshake")
                        return
                    pump()
            stage = 9
            for _ in range(r.choice([1, 1, 2, 4])):
                q = request(r)
                self.ring.add("tls%d" % w, q)
                for g in self.segs(q)[:40]:
                    if g:
                        ob.write(g)
                b = o.read()
                if r.random() < 0.12:
                    b = mutate(r, b, 1)
                for g in self.segs(b):
                    if not self.send2(s, g, i):
                        raise OSError("closed")
                if r.random() < 0.6:
                    if not select.select([s], [], [], 0.1)[0]:
                        continue
                    x = s.recv(65536)
                    i.write(x)
                    try:
                        d = ob.read(65536)
                        self.count("tlsresp:" + d[9:12].decode("latin-1"))
                    except ssl.SSLError:
                        pass
            if r.random() < 0.4:
                try:
                    ob.unwrap()
                except ssl.SSLError:
                    pass
                self.send2(s, o.read(), i)
            self.ending(s)
            self.count("tls%d:done" % w)
        except (OSError, ssl.SSLError, ValueError) as e:
            self.count("tls%d:stage%d" % (w, stage))
            rst(s)

    def send2(self, s, data, bio):
        s.setblocking(False)
        end = time.time() + 3
        while data and time.time() < end:
            rr, ww, _ = select.select([s], [s], [], 1)
            if rr:
                x = s.recv(65536)
                if not x:
                    return False
                bio.write(x)
            if ww:
                try:
                    data = data[s.send(data):]
                except BlockingIOError:
                    pass
        return not data

    def session(self):
        k = self.r.random()
        if k < 0.68:
            self.plain()
        elif k < 0.78:
            self.garbage()
        else:
            self.tls()


def client_main(seed, sessions, seconds, threads, dump, ports):
    ring = Ring()
    stats = ({}, threading.Lock())
    left = [sessions]
    gone = []
    end = time.time() + seconds

    def run(i):
        c = Client("%s/%d" % (seed, i), ports, ring, stats)
        while left[0] > 0 and not gone and time.time() < end:
            left[0] -= 1
            try:
                c.session()
            except Gone:
                gone.append(1)
            except socket.timeout:
                c.count("timeout")
            except OSError as e:
                c.count("oserror:%s" % type(e).__name__)
    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(seconds + 30)
    stats[0]["sessions"] = sessions - max(0, left[0])
    ring.dump(dump)
    print(json.dumps(stats[0]))
    sys.stdout.flush()
    os._exit(3 if gone else 0)


# ---------------------------------------------------------------- backends
def http_resp(r, cgi):
    st = r.choice([200] * 10 + [204, 206, 301, 304, 404, 500, 100, 101, 999, 99])
    o = []
    n = r.choice([0, 1, 10, 1000, 50000, 400000])
    body = (b"resp%d " % r.randrange(100) * (n // 6 + 1))[:n]
    hs = []
    k = r.random()
    if k < 0.4:
        hs.append(b"Content-Length: %d" % (len(body) + r.choice([0] * 9 + [1, -1, 1000])))
    elif k < 0.7 and not cgi:
        hs.append(b"Transfer-Encoding: chunked")
        body = chunked(r, body)
    for _ in range(r.choice([0, 1, 2, 4])):
        hs.append(fill(r, r.choice([b"Content-Type: text/html", b"Content-Type: text/plain; charset=%s", b"ETag: \"e%d\"", b"ETag: %s", b"Last-Modified: Sun, 06 Nov 1994 08:49:37 GMT", b"Location: /a.txt", b"Location: %s",
                                    b"Content-Encoding: gzip", b"Content-Encoding: identity", b"Connection: close", b"Connection: Upgrade", b"Upgrade: websocket", b"Set-Cookie: a=%s", b"X-Sendfile: %s", b"X-Sendfile: /etc/hostname",
                                    b"X-Sendfile: DOCROOT/a.txt", b"X-Fold: a\r\n b", b"Content-Length: %d", b"Transfer-Encoding: %s", b"Status: %d", b"Status: 404 x", b"Cache-Control: no-cache", b"Cache-Control: public, max-age=%d",
                                    b"Keep-Alive: %d", b"X-%s: %s", b"Vary: *", b"Date: x", b"Server: y"])))
    if cgi:
        if r.random() < 0.7:
            hs.insert(0, b"Status: %d %s" % (st, r.choice([b"OK", b"", b"x y"])))
        if r.random() < 0.1:
            o.append(b"HTTP/1.1 %d OK\r\n" % st)
    else:
        if r.random() < 0.1:
            o.append(r.choice([b"HTTP/1.1 100 Continue\r\n\r\n", b"HTTP/1.1 102 X\r\nA: b\r\n\r\n"]) * r.choice([1, 2, 50]))
        o.append(r.choice([b"HTTP/1.1 ", b"HTTP/1.1 ", b"HTTP/1.1 ", b"HTTP/1.0 ", b"HTTP/2.0 ", b""]) + b"%d %s\r\n" % (st, r.choice([b"OK", b"", b"Not Found", b"\xff\xfe"])))
    head = b"".join(o) + b"".join(h + b"\r\n" for h in hs) + b"\r\n"
    if r.random() < 0.35:
        head = mutate(r, head)
    if r.random() < 0.1:
        body = mutate(r, body)
    return head + body


def fcgi_rec(typ, rid, data, pad=0, ver=1):
    return struct.pack(">BBHHBB", ver, typ, rid & 0xffff, len(data) & 0xffff, pad & 255, 0) + data + b"p" * pad


def fcgi_resp(r):
    d = http_resp(r, True)
    o = b""
    while d:
        n = r.choice([1, 7, 100, 4000, 65535])
        if r.random() < 0.1:
            o += fcgi_rec(7, 1, r.choice([b"", b"stderr\n", b"e" * 70000])[:65535], r.choice([0, 1, 255]))
        o += fcgi_rec(6, 1 if r.random() < 0.97 else r.choice([0, 2, 65535]), d[:n], r.choice([0, 0, 1, 7, 255]))
        d = d[n:]
    if r.random() < 0.6:
        o += fcgi_rec(6, 1, b"", r.choice([0, 8]))
    if r.random() < 0.1:
        o += fcgi_rec(r.choice([0, 1, 2, 4, 5, 8, 9, 10, 11, 200]), r.choice([0, 1, 2]), rtok(r)[:65535])
    if r.random() < 0.85:
        o += fcgi_rec(3, 1, struct.pack(">IB3x", r.choice([0, 1, 2 ** 31, 2 ** 32 - 1]), r.choice([0] * 8 + [1, 2, 3, 77]))[:r.choice([8] * 8 + [0, 4, 7])], r.choice([0, 0, 5]))
    if r.random() < 0.25:
        o = mutate(r, o)
    return o


def memc_resp(r, req):
    k = req.split(b"\r\n", 1)[0].split(b" ")
    key = k[1] if len(k) > 1 else b"k"
    if k[:1] in ([b"get"], [b"gets"]):
        n = r.choice([0, 1, 10, 1000, 100000])
        v = b"v" * n
        o = b"VALUE " + key + b" %d %d%s\r\n" % (r.choice([0, 1, 2 ** 31, 2 ** 32 - 1]), n + r.choice([0] * 8 + [1, -1, 100, 10 ** 12, 2 ** 63]), b" 7" if k[0] == b"gets" else b"") + v + b"\r\nEND\r\n"
        o = r.choice([o] * 4 + [b"END\r\n", b"ERROR\r\n", b"SERVER_ERROR out of memory\r\n", b"CLIENT_ERROR x\r\n", b"", b"VALUE " + key + b"\r\n", b"VALUE x 0 1\r\na\r\nEND\r\n", b"VALUE " + key + b" a b\r\n", o + o, b"V" * 5000])
    else:
        o = r.choice([b"STORED\r\n"] * 3 + [b"NOT_STORED\r\n", b"ERROR\r\n", b"EXISTS\r\n", b"", b"STORED\r\nSTORED\r\n", b"END\r\n"])
    if r.random() < 0.3:
        o = mutate(r, o)
    return o


class Backend:
    def __init__(self, kind, seed, ring):
        self.kind, self.ring = kind, ring
        self.ls = socket.socket()
        self.ls.bind(("127.0.0.1", 0))
        self.ls.listen(512)
        self.port = self.ls.getsockname()[1]
        self.seed, self.n = seed, 0
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                s, _ = self.ls.accept()
            except OSError:
                time.sleep(0.01)
                continue
            self.n += 1
            threading.Thread(target=self.conn, args=(s, random.Random("%s/%d" % (self.seed, self.n))), daemon=True).start()

    def conn(self, s, r):
        try:
            s.settimeout(8)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if r.random() < 0.05:
                if r.random() < 0.5:
                    rst(s)
                else:
                    s.close()
                return
            while True:
                want = r.choice([0, 1, 1, 100000]) if r.random() < 0.4 else 1
                req = b""
                if want:
                    req = s.recv(65536)
                    if not req:
                        break
                    if want > 1 or r.random() < 0.5:      # take what there is
                        s.settimeout(0.02)
                        try:
                            for _ in range(20):
                                x = s.recv(262144)
                                if not x:
                                    break
                                req += x
                        except socket.timeout:
                            pass
                        s.settimeout(8)
                if self.kind == "memcached":
                    o = memc_resp(r, req)
                elif self.kind == "fastcgi":
                    o = fcgi_resp(r)
                else:
                    o = http_resp(r, self.kind == "scgi")
                self.ring.add(self.kind, o)
                cuts = sorted(r.randrange(len(o) + 1) for _ in range(r.choice([0, 0, 1, 3, 10])))
                for a, b in zip([0] + cuts, cuts + [len(o)]):
                    s.sendall(o[a:b])
                    if r.random() < 0.3:
                        time.sleep(r.choice([0, 0.001, 0.005]))
                    if r.random() < 0.02:
                        if r.random() < 0.5:
                            rst(s)
                        return
                k = r.random()
                if k < 0.1:
                    rst(s)
                    return
                if k < (0.9 if self.kind in ("proxy", "scgi") else 0.3):
                    break
                if k < 0.93:
                    time.sleep(0.2)
        except OSError:
            pass
        finally:
            try:
                s.close()
            except OSError:
                pass


def backend_main(seed, dump):
    ring = Ring(80)
    bs = [Backend(k, "%s/%s" % (seed, k), ring) for k in ("proxy", "fastcgi", "scgi", "memcached")]

    def term(*a):
        ring.dump(dump)
        print(json.dumps({b.kind: b.n for b in bs}))
        sys.stdout.flush()
        os._exit(0)
    signal.signal(signal.SIGTERM, term)
    print(" ".join(str(b.port) for b in bs))
    sys.stdout.flush()
    while True:
        time.sleep(1)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "client":
        client_main(a[1], int(a[2]), float(a[3]), int(a[4]), a[5], [int(x) for x in a[6].split(":")])
    else:
        backend_main(a[1], a[2])
