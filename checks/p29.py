"""P29: pages cached in memcached are never mixed up"""
import hashlib
import os
import random
import threading
import time

from vf import backends, build, check, http, memc, server


NCTX = 48


def mkey(b):
    """documented: the key itself if it is short and printable, otherwise its hash"""
    if 0 < len(b) <= 250 and all(0x21 <= c <= 0x7e for c in b):
        return b
    return hashlib.sha1(b).hexdigest().encode()


def pct(r, b, always=b""):
    o = b""
    for c in b:
        ch = bytes([c])
        if chr(c).isalnum() and c < 128 and r.random() < 0.9 or ch in b"-_.~!$&'()*,;=:@/" and ch not in always and r.random() < 0.7:
            o += ch
        else:
            o += b"%%%02x" % c
    return o


def rname(r):
    k = r.random()
    if k < 0.4:
        n = r.randrange(1, 24)
        return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABC0123456789_-") for _ in range(n))
    if k < 0.6:
        return bytes(r.choice(list(range(0x20, 0x7f))) for _ in range(r.randrange(1, 20))).replace(b"/", b"x").replace(b"..", b"x")
    if k < 0.75:  # around the limit of the key length
        return bytes(r.choice(b"abcdefgh") for _ in range(r.choice([r.randrange(200, 249), r.randrange(256, 400), 243, 244, 245, 246])))
    return bytes(r.choice([*range(0x80, 0x100), *range(0x20, 0x2f), 0x41]) for _ in range(r.randrange(1, 16))).replace(b"/", b"x").replace(b"..", b"x")


def rvalue(r):
    k = r.random()
    if k < 0.1:
        return b""
    if k < 0.3:
        return r.choice([b"END\r\n", b"\r\n", b"\r\nEND\r\n", b"x\r\nEND\r\nVALUE a 0 3\r\nabc\r\nEND\r\n", b"\0", b"\r", b"\n", b"STORED\r\n", b"END", b"a\r\n"]) * r.choice([1, 1, 2, 50])
    if k < 0.6:
        return r.randbytes(r.choice([1, 2, 3, 4000, 4030, 4060, 4080, 4090, 4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192]) + r.randrange(0, 3))
    if k < 0.9:
        return r.randbytes(r.randrange(1, 3000))
    return r.randbytes(r.randrange(10000, 300000))


class Env:
    def __init__(self, chk, workers=1):
        self.chk = chk
        self.doc = os.path.join(chk.scratch, "doc%d" % workers)
        os.makedirs(self.doc, exist_ok=True)
        self.m1, self.m2 = memc.Memc(chk.seed), memc.Memc(chk.seed + 1)
        chk.cleanup(self.m1.stop)
        chk.cleanup(self.m2.stop)
        self.plan = {}
        self.stub = backends.HttpStub(self.answer, backlog=512)
        chk.cleanup(self.stub.stop)
        conf = """
docroot "@D@";
hit = { header.add "X-Memcached" => "Hit"; };
miss = { header.add "X-Memcached" => "Miss"; respond 404 => "fallback"; };
if req.path =^ "/a/" { memcached.lookup (["server" => "@M1@"], hit, miss); }
else if req.path =^ "/b/" { memcached.lookup (["server" => "@M2@", "key" => "q:%{req.query}"], hit, miss); }
else if req.path =~ "^/c/(?s)(.*)$" { memcached.lookup (["server" => "@M1@", "key" => "c-%1"], hit, miss); }
else if req.path =^ "/h/" { memcached.lookup (["server" => "@M1@", "key" => "%{req.host}/%{req.header[X-K]}"], hit, miss); }
else if req.path =~ "^/n/(.*)$" { if req.query =~ "^k=(?s)(.*)$" { memcached.lookup (["server" => "@M2@", "key" => "n-%1-%0"], hit, miss); } }
else if req.path =^ "/d/" { memcached.lookup (["server" => "@DOWN@"], hit, miss); }
else if req.path =^ "/s/" { proxy "@P@"; memcached.store ["server" => "@M2@", "ttl" => 77, "flags" => 5, "maxsize" => 20000]; }
else if req.path =~ "^/t/(.*)$" { proxy "@P@"; memcached.store ["server" => "@M2@", "key" => "t/%1?%{req.query}", "ttl" => 0]; }
else if req.path =^ "/f/" { static; memcached.store ["server" => "@M2@", "maxsize" => 20000, "ttl" => 10]; }
"""
        # every lookup action has a connection of its own, and it is not reconnected for 1 s after a failure
        for i in range(NCTX):
            conf += 'else if req.path =^ "/x%d/" { memcached.lookup (["server" => "@M1@"], hit, miss); }\n' % i
        self.down = server.free_port()
        for k, v in (("@D@", self.doc), ("@M1@", self.m1.addr()), ("@M2@", self.m2.addr()), ("@DOWN@", "127.0.0.1:%d" % self.down), ("@P@", self.stub.addr())):
            conf = conf.replace(k, v)
        self.srv = server.Server(chk, conf, modules=["mod_memcached", "mod_proxy"], setup="io.timeout 60;", workers=workers, leaks=True)
        self.srv.start()

    def answer(self, rec):
        return self.plan[rec.get(b"X-Plan")]

    def ask(self, target, hdr=b"", method=b"GET", timeout=20):
        c = http.Conn(port=self.srv.port, timeout=timeout)
        try:
            c.send(method + b" " + target + b" HTTP/1.1\r\nHost: h.example\r\n" + hdr + b"Connection: close\r\n\r\n")
            return c.read_response(method.decode())
        finally:
            c.close()

    def warm(self):
        """until both memcached servers are connected from every worker"""
        t = time.time() + 15
        good = 0
        self.m1.data[b"/a/warm"] = self.m2.data[b"q:warm"] = (0, b"warm")
        while time.time() < t and good < 12:
            a, b = self.ask(b"/a/warm"), self.ask(b"/b/?warm")
            good = good + 1 if a.body == b.body == b"warm" else 0
            if not good:
                time.sleep(0.2)
        return good >= 12


def lookup_target(r, i):
    """-> (target, extra header, key, server index)"""
    n = rname(r)
    k = r.random()
    if k < 0.4:
        n = b"%d-" % i + n
        # a path: backslashes and the like stay as they are
        return b"/a/" + pct(r, n), b"", b"/a/" + n, 0
    if k < 0.6:
        q = b"%d-" % i + pct(r, n).replace(b"%20", b"+")
        return b"/b/?" + q, b"", b"q:" + q, 1
    if k < 0.7:
        # the captures are those of the innermost regex
        q = b"%d-" % i + pct(r, n).replace(b"%20", b"+")
        return b"/n/" + pct(r, b"out-%d" % i) + b"?k=" + q, b"", b"n-" + q + b"-k=" + q, 1
    if k < 0.85:
        n = b"%d-" % i + n
        return b"/c/" + pct(r, n), b"", b"c-" + n, 0
    v = b"%d-" % i + bytes(c for c in n if c > 0x20 and c != 0x22 and c < 0x7f)
    return b"/h/x", b"X-K: " + v + b"\r\n", b"h.example/" + v, 0


def exact(e):
    chk = e.chk
    e.m1.maxseg = e.m2.maxseg = 40
    if not e.warm():
        chk.violation("never-hit", "a cached page was not delivered within 15 s although the memcached server answers correctly", {"gets": [k.decode("latin1") for k in e.m1.gets[-5:]]})
        return
    srvs = (e.m1, e.m2)

    def one(i):
        r = random.Random("%d/x/%d" % (chk.seed, i))
        target, hdr, raw, si = lookup_target(r, i)
        # control bytes of decoded paths are replaced before the key is built: only used outside of names
        key = mkey(raw)
        present = r.random() < 0.75
        v = rvalue(r)
        if present:
            srvs[si].data[key] = (r.choice([0, 1, 65535, 4294967295]), v)
        method = b"HEAD" if r.random() < 0.1 else b"GET"
        wit = {"target": target.decode("latin1"), "header": hdr.decode("latin1"), "key": key.decode(), "length": len(v), "present": present}
        for attempt in range(2):
            try:
                x = e.ask(target, hdr, method)
            except (http.Closed, http.Timeout, http.ProtoError) as ex:
                bad = ("no-answer", "lookup of %r: %s" % (key, ex), wit)
                continue
            h = x.get(b"X-Memcached")
            if present:
                if x.status == 200 and h == b"Hit" and (method == b"HEAD" or x.body == v):
                    bad = None
                    break
                if x.status == 200 or h != b"Miss":
                    wit["got"] = repr(x.body[:80])
                    return ("content", "%s %s: the stored page has %d bytes, the answer is %s %s with %d bytes" % (method.decode(), target.decode("latin1")[:80], len(v), x.status, h, len(x.body)), wit)
                bad = ("missed", "%s: stored under %r and answered correctly, but treated as a miss" % (target.decode("latin1")[:80], key), wit)
            else:
                if x.status == 404 and h == b"Miss" and (method == b"HEAD" or x.body == b"fallback"):
                    bad = None
                    break
                return ("content", "%s: not in the cache, but the answer is %s %s %r" % (target.decode("latin1")[:80], x.status, h, x.body[:40]), wit)
            time.sleep(0.3)
        if bad:
            return bad
        chk.ok(1, lookup="hit" if present else "miss", key="hashed" if key != raw else "plain", size="0" if not v else "<4k" if len(v) < 4000 else "~4-8k" if len(v) < 9000 else "large")

    def w(i):
        b = one(i)
        if b:
            chk.violation("lookup-" + b[0], b[1], b[2])
    check.parallel(24, w, range(chk.n(600)))
    for m in srvs:
        for x in m.errors[:5]:
            chk.violation("lookup-command", "malformed command sent to memcached: " + x, {})
    chk.count("memcached", "gets", len(e.m1.gets) + len(e.m2.gets))
    chk.count("memcached", "connections", e.m1.nconn + e.m2.nconn)


def faults_for(r, key, v, other):
    """-> (name, actions, deliverable): deliverable says whether the page may be delivered"""
    good = memc.Memc.value(key, 0, v)
    n = len(v)
    hugev = [b"-1", b"-2", b"-3", b"9223372036854775807", b"9223372036854775808", b"18446744073709551615", b"18446744073709551614", b"18446744073709551613", b"99999999999", b"4294967296", b"4611686018427387904", b"1e3", b"0x10", b"+%d" % n,
             b" %d" % n, b"", b"abc", b"999999999999999999999999", b"2147483647", b"2000000000"]
    F = [
        ("wrong key", lambda: [memc.Memc.value(other, 0, b"SECRET-OTHER")], False),
        ("key prefix", lambda: [memc.Memc.value(key[:-1] or b"x", 0, b"SECRET-OTHER")], False),
        ("key extended", lambda: [memc.Memc.value(key + b"x", 0, b"SECRET-OTHER")], False),
        ("key case", lambda: [memc.Memc.value(key.swapcase() + b"A", 0, b"SECRET-OTHER")], False),
        ("size", lambda: [b"VALUE %s 0 %s\r\n%s\r\nEND\r\n" % (key, r.choice(hugev), v)], None),
        ("size small", lambda: [b"VALUE %s 0 %d\r\n%s\r\nEND\r\n" % (key, max(0, n - r.randrange(1, 5)), b"Z" * (n + 1) + v)], False),
        ("size large", lambda: [b"VALUE %s 0 %d\r\n%s\r\nEND\r\n" % (key, n + r.randrange(1, 5), v), ("sleep", 0.05), ("close",)], False),
        ("no end", lambda: [b"VALUE %s 0 %d\r\n%s\r\n" % (key, n, v), ("close",)], False),
        ("two values", lambda: [b"VALUE %s 0 %d\r\n%s\r\nVALUE %s 0 12\r\nSECRET-OTHER\r\nEND\r\n" % (key, n, v, other)], False),
        ("error", lambda: [r.choice([b"ERROR\r\n", b"SERVER_ERROR out of memory\r\n", b"CLIENT_ERROR x\r\n", b"STORED\r\n", b"\r\n", b"END \r\n", b"end\r\n", b"VALUE\r\n", b"VALUE \r\n", b"VALUE  0 0\r\n\r\nEND\r\n", b"VALUE k\r\n", b"VALUE k 0\r\n",
                                    b"VALUE " + key + b"\r\n", b"VALUE " + key + b" 0\r\n", b"VALUE " + key + b" x 3\r\nabc\r\nEND\r\n", b"VALUE " + key + b" 0 3 x\r\nabc\r\nEND\r\n", b"VALUE " + key + b" 0 3 1 1\r\nabc\r\nEND\r\n"]), ("sleep", 0.02), ("close",)], False),
        ("cut", lambda: [good[:r.randrange(0, len(good))], ("close",)], False),
        ("cut rst", lambda: [good[:r.randrange(0, len(good))], ("sleep", 0.01), ("rst",)], False),
        ("long line", lambda: [b"VALUE " + b"k" * r.choice([1000, 1100, 4090, 4096, 4097, 5000, 20000]) + b" 0 3\r\nabc\r\nEND\r\n"], False),
        ("no newline", lambda: [b"V" * r.choice([1023, 1024, 1025, 4095, 4096, 4097, 10000]), ("sleep", 0.3), ("close",)], False),
        ("nul", lambda: [b"VALUE " + key[:1] + b"\0" + key[1:] + b" 0 3\r\nabc\r\nEND\r\n"], False),
        ("random", lambda: [r.randbytes(r.randrange(1, 300)), ("sleep", 0.02), ("close",)], False),
        ("mutated", None, None),
        ("cas", lambda: [b"VALUE %s 0 %d 12345\r\n%s\r\nEND\r\n" % (key, n, v)], True),
        ("extra", lambda: [good + memc.Memc.value(other, 0, b"SECRET-OTHER")], True),
        ("late extra", lambda: [good, ("sleep", 0.05), memc.Memc.value(other, 0, b"SECRET-OTHER")], True),
        ("late extra after miss", lambda: [b"END\r\n", ("sleep", 0.05), memc.Memc.value(other, 0, b"SECRET-OTHER")], False),
        ("slow", lambda: [good[:len(good) // 2], ("sleep", 0.3), good[len(good) // 2:]], True),
        ("twice", lambda: [good + good], True),
    ]
    name, f, ok = r.choice(F)
    if name == "mutated":
        b = bytearray(good)
        for _ in range(r.randrange(1, 4)):
            p = r.randrange(0, min(len(b), 40))
            b[p] = r.choice(b"\r\n 0129-EVx\0\xff")
        return name, lambda: [bytes(b), ("sleep", 0.02), ("close",)], None
    return name, f, ok


def faults(e):
    chk = e.chk
    e.m1.maxseg = 60
    other = mkey(b"/a/other")
    e.m1.data[other] = (0, b"SECRET-OTHER")
    srvs = (e.m1, e.m2)

    free = list(range(NCTX))
    fl = threading.Lock()

    def batch(i):
        with fl:
            ctx = free.pop(0)
        try:
            warm = b"/x%d/warm" % ctx
            e.m1.data[warm] = (0, b"warm")
            t = time.time() + 15
            while True:
                try:
                    if e.ask(warm).body == b"warm":
                        break
                except (http.Closed, http.Timeout, http.ProtoError):
                    pass
                if time.time() > t or not e.srv.alive():
                    return [("recover", "no page is delivered from memcached 15 s after a malformed answer", {"context": ctx})]
                time.sleep(0.1)
            return batch1(i, ctx)
        finally:
            with fl:
                free.append(ctx)

    def batch1(i, ctx):
        """several concurrent lookups, some of them answered badly"""
        r = random.Random("%d/f/%d" % (chk.seed, i))
        todo = []
        for j in range(r.randrange(1, 6)):
            n = b"%d.%d-" % (i, j) + rname(r)
            target, hdr, raw, si = b"/x%d/" % ctx + pct(r, n), b"", b"/x%d/" % ctx + n, 0
            key = mkey(raw)
            v = rvalue(r)[:5000]
            if b"SECRET" in v:
                continue
            if r.random() < 0.55:
                name, f, ok = faults_for(r, key, v, other)
                srvs[si].faults[key] = lambda k, f=f: f()
            else:
                name, ok = "none", True
                srvs[si].data[key] = (0, v)
            todo.append((target, hdr, key, v, name, ok, si))
        res = [None] * len(todo)

        def ask(k):
            target, hdr = todo[k][:2]
            try:
                res[k] = e.ask(target, hdr, timeout=25)
            except (http.Closed, http.Timeout, http.ProtoError) as ex:
                res[k] = ex
        ths = [threading.Thread(target=ask, args=(k,)) for k in range(len(todo))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        bad = []
        for (target, hdr, key, v, name, ok, si), x in zip(todo, res):
            wit = {"target": target.decode("latin1"), "key": key.decode("latin1"), "fault": name, "value": repr(v[:60]), "others": [t[4] for t in todo]}
            if isinstance(x, Exception):
                bad.append(("no-answer", "memcached answer '%s': the request did not fall through to the alternative (%s)" % (name, x), wit))
                continue
            h = x.get(b"X-Memcached")
            if x.status == 404 and h == b"Miss" and x.body == b"fallback":
                chk.ok(1, fault=name, outcome="fallback")
            elif x.status == 200 and h == b"Hit" and ok is not False and x.body == v:
                chk.ok(1, fault=name, outcome="hit")
            elif x.status == 200 and h == b"Hit" and name == "mutated" and b"SECRET" not in x.body:
                # the mutated answer may be a well-formed one for this key with other data
                chk.ok(1, fault=name, outcome="hit-mutated")
            else:
                wit["got"] = repr(x.body[:80])
                bad.append(("wrong", "memcached answer '%s' for key %s: %s %s %r was delivered" % (name, key.decode("latin1")[:60], x.status, h, x.body[:40]), wit))
        for m in srvs:
            for t in todo:
                m.faults.pop(t[2], None)
        return bad

    def w(i):
        if e.srv.alive():
            for b in batch(i):
                chk.violation("faults-" + b[0], b[1], b[2])
    check.parallel(NCTX - 2, w, range(chk.n(900)))
    # afterwards pages are delivered again
    if not e.srv.alive():
        chk.violation("faults-dead", "the server died on an answer of memcached", {"logs": e.srv.logs()[-2000:]})
        return
    if not e.warm():
        chk.violation("faults-recover", "no page is delivered from memcached any more 15 s after it answers correctly again", {})
    chk.count("memcached", "reconnects", e.m1.nconn + e.m2.nconn)
    # server that is down: always the alternative
    for i in range(6):
        x = e.ask(b"/d/x%d" % i)
        if x.status != 404 or x.body != b"fallback":
            chk.violation("down", "memcached is down, but the answer is %s %r" % (x.status, x.body[:40]), {})
        chk.ok(1, fault="down", outcome="fallback")


def stores(e):
    chk = e.chk
    e.m1.maxseg = e.m2.maxseg = 0
    if not e.warm():
        chk.inconcl("not connected")
        return
    seen = {}

    def one(i, attempt=0):
        r = random.Random("%d/s/%d" % (chk.seed, i))
        sid = b"s%d.%d" % (i, attempt)
        kind = r.random()
        n = r.choice([0, 1, 5, 100, 19998, 19999, 20000, 20001, 20002, 65536, 65535, 65537, 100000, r.randrange(0, 30000), r.randrange(0, 30000), r.randrange(60000, 70000)])
        body = r.randbytes(n)
        where = r.choice(["s", "s", "t", "f"])
        status = r.choice([200, 200, 200, 200, 200, 203, 404, 500, 206, 301])
        framing = r.choice(["length", "chunked", "eof", "abort", "abort", "abort-chunk"])
        method = r.choice([b"GET"] * 8 + [b"HEAD", b"POST"])
        leave = r.random() < 0.12
        q = b"q%d" % r.randrange(1000) if r.random() < 0.5 else b""
        name = sid + b"-" + rname(r)
        if where == "f":
            name = sid + b".bin"
            os.makedirs(os.path.join(e.doc, "f"), exist_ok=True)
            with open(os.path.join(e.doc, "f", name.decode()), "wb") as f:
                f.write(body)
            status, framing = 200, "length"
            method = method if method != b"POST" else b"GET"
        path = b"/" + where.encode() + b"/" + name
        key = mkey(path if where != "t" else b"t/" + name + b"?" + q)
        limit = 20000 if where != "t" else 65536
        target = b"/" + where.encode() + b"/" + pct(r, name) + (b"?" + q if q else b"")
        complete = True
        head = b"HTTP/1.1 %d X\r\nContent-Type: text/plain\r\n" % status
        if framing == "length":
            acts = [("send", head + b"Content-Length: %d\r\n\r\n" % n)]
        elif framing in ("abort", "abort-chunk"):
            complete = False
            acts = [("send", head + (b"Content-Length: %d\r\n\r\n" % (n + r.randrange(1, 100)) if framing == "abort" else b"Transfer-Encoding: chunked\r\n\r\n"))]
        elif framing == "eof":
            acts = [("send", head + b"\r\n")]
        else:
            acts = [("send", head + b"Transfer-Encoding: chunked\r\n\r\n")]
        if method != b"HEAD":
            p = 0
            while p < n:
                k = min(n - p, r.choice([1, 100, 4096, 16384, 40000]))
                d = body[p:p + k]
                if "chunk" in framing:
                    d = b"%x\r\n" % k + d + b"\r\n"
                acts.append(("send", d))
                p += k
                if len(acts) < 8 and r.random() < 0.5:
                    acts.append(("sleep", 0.005))
            if framing == "chunked":
                acts.append(("send", b"0\r\n\r\n"))
            if framing == "abort-chunk":
                acts.append(("send", r.choice([b"", b"5\r\nab", b"zz\r\n", b"0\r\n"])))
        elif not complete:
            complete = True
        acts.append(r.choice([("close",), ("rst",)]) if not complete else ("close",))
        e.plan[sid] = acts
        hdr = b"X-Plan: " + sid + b"\r\n"
        if method == b"POST":
            hdr += b"Content-Length: 3\r\n\r\nabc"
        wit = {"target": target.decode("latin1"), "method": method.decode(), "status": status, "framing": framing, "length": n, "limit": limit, "key": key.decode("latin1")}
        try:
            c = http.Conn(port=e.srv.port, timeout=20)
            try:
                req = method + b" " + target + b" HTTP/1.1\r\nHost: h.example\r\nConnection: close\r\n" + hdr + (b"" if method == b"POST" else b"\r\n")
                c.send(req)
                if leave:
                    time.sleep(r.choice([0, 0.002, 0.01]))
                    c.rst()
                    x = None
                else:
                    x = c.read_response(method.decode())
            finally:
                c.close()
        except (http.Closed, http.Timeout, http.ProtoError) as ex:
            x = ex
        if not leave and complete:
            if isinstance(x, Exception):
                return ("no-answer", "response that is to be stored wasn't delivered: %s" % x, wit)
            if x.status != status or method != b"HEAD" and x.body != body and not (n == 0 and status >= 400):  # (empty errors get an error page)
                return ("content", "response that is to be stored was changed: %s, %d of %d bytes" % (x.status, len(x.body), n), wit)
        want = status == 200 and complete and n <= limit and method != b"HEAD" and framing != "eof"
        may = status == 200 and complete and n <= limit
        t = time.time() + (3 if want and not leave else 0.05)
        while time.time() < t and not any(s[0] == key for s in list(e.m2.sets)):
            time.sleep(0.01)
        seen[key] = (may, want and not leave, body, 77 if where == "s" else 0 if where == "t" else 10, 5 if where == "s" else 0, wit)

    def w(i):
        b = one(i)
        if b and b[0] == "no-answer":
            b2 = one(i, 1)
            if not b2:
                chk.inconcl("%s only once" % b[1])
            b = b2
        if b:
            chk.violation("store-" + b[0], b[1], b[2])
    check.parallel(16, w, range(chk.n(500)))
    time.sleep(0.5)
    got = {}
    for s in list(e.m2.sets):
        got.setdefault(s[0], []).append(s)
    for key, ss in got.items():
        if key not in seen:
            chk.violation("store-key", "a page was stored under the key %r, which belongs to no request" % key, {"sets": [repr(s)[:200] for s in ss]})
            continue
        may, want, body, ttl, flags, wit = seen[key]
        for _, fl, tt, v in ss:
            if not may:
                chk.violation("store-unfit", "%(method)s %(target).60s, status %(status)d, '%(framing)s', %(length)d bytes (limit %(limit)d): must not be stored" % wit + ", but %d bytes were" % len(v), wit)
            elif v != body:
                chk.violation("store-partial", "%d of %d bytes of the response were stored" % (len(v), len(body)), wit)
            elif (fl, tt) != (flags, ttl):
                chk.violation("store-options", "flags %d and ttl %d instead of %d and %d" % (fl, tt, flags, ttl), wit)
            else:
                chk.ok(1, store="stored")
    for key, (may, want, body, ttl, flags, wit) in seen.items():
        if want and key not in got:
            chk.violation("store-missing", "%(method)s %(target).60s, status %(status)d, '%(framing)s', %(length)d bytes (limit %(limit)d): the response was not stored" % wit, wit)
        elif key not in got:
            chk.ok(1, store="not stored", framing=wit["framing"])
    for x in e.m2.errors[:5]:
        chk.violation("store-command", "malformed command sent to memcached: " + x, {})
    chk.count("memcached", "sets", len(e.m2.sets))


def body(chk):
    only = (chk.args.only or "").split(",") if chk.args.only else []
    build.build("asan")
    e = Env(chk, 1)
    for name, f in (("exact", exact), ("stores", stores), ("faults", faults)):
        if not only or name in only:
            f(e)
            e.srv.verify(name)
    e.srv.stop()
    e.srv.verify("end", expect_alive=False)


if __name__ == "__main__":
    c = check.Check("P29", rule="one evaluation = one lookup or store judged against the stub memcached server's own data and command log: hit only with the exact key and bytes, everything else falls through; stores only complete 200 bodies under the configured key; distinct = fault/size/framing classes")
    check.run(c, body, min_evals=500)
