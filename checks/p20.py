"""P20: the access log has exactly one faithful line per request."""
import base64
import collections
import os
import re
import threading
import time

from vf import backends, build, check, http, server, urlref

FMT = ('"%m" "%U" "%q" "%r" %s %b %B %I %O %X "%V" "%v" "%{X-Id}i" "%{X-Val}i" "%{X-Out}o" "%{VAR}e" "%u" %h %a %p %A %D %T %t "%f" 100%% %>s')
QF = r'"((?:[^"\\]|\\.)*)"'
LINE = re.compile(('^%s %s %s %s (\\d+) (\\S+) (\\d+) (\\d+) (\\d+) (\\S) %s %s %s %s %s %s %s (\\S+) (\\S+) (\\d+) (\\S+) (\\d+) (\\d+) (\\[[^\\]]*\\]) %s 100%% (\\d+)$'
                   % ((QF,) * 12)).encode())
NAMES = "m U q r s b B I O X V v id val out env u h a p A D T t f s2".split()
ESC = {0x22: b'\\"', 0x5c: b"\\\\", 8: b"\\b", 10: b"\\n", 13: b"\\r", 9: b"\\t", 11: b"\\v"}


def esc(v):
    o = bytearray()
    for c in v:
        if c in ESC:
            o += ESC[c]
        elif 32 <= c <= 126:
            o.append(c)
        else:
            o += b"\\x%02X" % c
    return bytes(o)


def dash(v):
    return v if v else b"-"


class CConn(http.Conn):
    rx = 0

    def fill(self, timeout=None):
        n = len(self.buf)
        r = http.Conn.fill(self, timeout)
        self.rx += len(self.buf) - n
        return r

    def pos(self):
        return self.rx - len(self.buf)


def run(chk):
    build.build("asan")
    d = os.path.join(chk.scratch, "p20")
    doc = d + "/doc"
    os.makedirs(doc + "/dir")
    rr = chk.rng("files")
    FILES = {}
    for n, l in (("a.txt", 10), ("empty.txt", 0), ("big.bin", 300000), ("dir/x y.html", 77), ("dir/ä.txt", 5)):
        FILES[n] = bytes(rr.randrange(256) for _ in range(min(l, 1000))) * (1 if l <= 1000 else l // 1000)
        with open(doc + "/" + n, "wb") as f:
            f.write(FILES[n])
    with open(d + "/users", "w") as f:
        f.write('alice:pw\nbob "x" \\y:pw\nc\u00e4t:pw\n')
    os.chmod(d, 0o755)

    def handler(rec):
        if rec.target is None:
            return [("close",)]
        q = rec.target.partition(b"?")[2]
        p = dict(x.partition(b"=")[::2] for x in q.split(b"&"))
        n = int(p.get(b"n", b"3") or 0)
        out = base64.urlsafe_b64decode(p.get(b"o", b"") + b"==") if b"o" in p else None
        h = b""
        if out is not None:
            h = b"X-Out: " + out + b"\r\n"
        st = p.get(b"st", b"200")
        k = p.get(b"k", b"len")
        sl = [("sleep", float(p[b"sl"]))] if b"sl" in p else []
        body = b"z" * n
        if rec.method == b"HEAD":
            return sl + [("raw", b"HTTP/1.1 %s X\r\n%sContent-Length: %d\r\n\r\n" % (st, h, n)), ("close",)]
        if k == b"len":
            return sl + [("raw", b"HTTP/1.1 %s X\r\n%sContent-Length: %d\r\n\r\n" % (st, h, n) + body), ("close",)]
        if k == b"chunked":
            w = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + 700]), body[i:i + 700]) for i in range(0, n, 700)) + b"0\r\n\r\n"
            return sl + [("raw", b"HTTP/1.1 %s X\r\n%sTransfer-Encoding: chunked\r\n\r\n" % (st, h) + w), ("close",)]
        return sl + [("raw", b"HTTP/1.0 %s X\r\n%s\r\n" % (st, h) + body), ("close",)]

    st = backends.HttpStub(handler, backlog=1024)
    chk.cleanup(st.stop)
    log1, log2 = d + "/default.log", d + "/second.log"
    cfg = FMT.replace('"', '\\"')
    conf = """
keepalive.requests 100000; keepalive.timeout 120;
env.set "VAR" => "v:%%{req.header[X-Env]}";
docroot "%s";
if req.host == "second" { accesslog "%s"; }
if req.host == "named" { server.name "the server"; }
if req.path =^ "/none/" { accesslog ""; }
if req.path =^ "/p/" { proxy "%s"; }
else if req.path =^ "/r/" { header.add "X-Out" => "%%{req.header[X-Val]}"; respond 200 => "answer"; }
else if req.path =^ "/s/" { respond 503; }
else if req.path =^ "/n/" { respond 204; }
else if req.path =^ "/auth/" { auth.plain [ "method" => "basic", "realm" => "x", "file" => "%s/users" ]; respond 200 => "secret"; }
else if req.path =^ "/dead/" { proxy "127.0.0.1:1"; }
else { static; }
""" % (doc, log2, st.addr(), d)
    srv = server.Server(chk, conf, setup='accesslog "file:%s"; accesslog.format "%s";' % (log1, cfg), modules=["mod_accesslog", "mod_proxy", "mod_auth"], workers=4).start()
    exp = {}        # id -> expectation
    aborted = {}
    lock = threading.Lock()
    t_begin = time.time()
    VALS = [b"plain", b"with space", b"tab\there", b"\\", b"\\\\x", b"'single'", b'"quoted"', b'"a\\"b"', b"\xc3\xa4", b"\xff\xfe\x80", b"100%", b"%s%n", b"a,b;c", b"-", b"\\n127.0.0.1 forged", b"<b>", b"x" * 3000]
    SEGS = [b"a", b"%0a", b"%0D%0A1.2.3.4", b"%22", b"%5c", b"%ff", b"%C3%A4", b"%09", b"%00", b"%7f", b"..", b".", b"x%20y", b"\"q", b"\\n", b"%25", b"a:b", b"<x>"]
    QS = [b"", b"?", b"?a=b", b"?%0a%22", b"?\"x\"", b"?a\\b", b"?q?x", b"?%", b"?" + b"l" * 2000]

    def genpath(r):
        k = r.random()
        segs = b"/".join(r.choice(SEGS) for _ in range(r.randrange(0, 4)))
        return segs

    seq = [0]

    def newid():
        with lock:
            seq[0] += 1
            return b"i%d" % seq[0]

    def gen(r, last_ok=True):
        """-> request bytes, method, expectation"""
        e = {}
        hdrs = []
        rid = newid()
        method = r.choice(["GET"] * 6 + ["HEAD", "POST", "OPTIONS"])
        ver = r.choice(["1.1"] * 5 + ["1.0"])
        host = r.choice([b"localhost", b"second", b"named", b"Second:80", b"a.b.C."])
        kind = r.choice(["r"] * 4 + ["p"] * 5 + ["f"] * 4 + ["s", "n", "auth", "auth", "none", "dead", "big", "continue"])
        body = None
        if method == "POST":
            body = b"b" * r.choice([0, 1, 100, 5000])
        tail = genpath(r) if r.random() < 0.5 else b"x"
        q = r.choice(QS)
        if kind in ("r", "s", "n", "none", "dead"):
            path = b"/" + kind.encode() + b"/" + tail
        elif kind == "auth":
            path = b"/auth/"
            u = r.choice([b"alice", b'bob "x" \\y', b"c\xc3\xa4t", None, b"nobody"])
            if u is not None:
                hdrs.append((b"Authorization", b"Basic " + base64.b64encode(u + b":pw")))
                if u != b"nobody":
                    e["u"] = u
        elif kind == "p":
            path = b"/p/" + tail
            o = r.choice(VALS)
            if b"\xff" in o or len(o) > 2000:
                o = b"val"
            q = b"?n=%d&k=%s&st=%s&o=%s" % (r.choice([0, 3, 2000, 30000]), r.choice([b"len", b"chunked", b"close"]), r.choice([b"200", b"200", b"404", b"500", b"299"]), base64.urlsafe_b64encode(o).rstrip(b"="))
            if r.random() < 0.05:
                q += b"&sl=0.3"
                e["minD"] = 250000
        elif kind == "big":
            path = b"/big.bin"
            if r.random() < 0.5:
                hdrs.append((b"Range", r.choice([b"bytes=0-9", b"bytes=100-", b"bytes=999999-", b"bytes=1-2,5-9"])))
        elif kind == "continue":
            method, body = "POST", b"c" * 50
            path = b"/r/c"
            hdrs.append((b"Expect", b"100-continue"))
            ver = "1.1"
        else:
            path = b"/" + r.choice([b"a.txt", b"empty.txt", b"missing", b"dir/", b"dir/x%20y.html", b"dir/%C3%A4.txt", b"dir", b"a.txt/pi"])
        target = path + q
        if r.random() < 0.08 and b"#" not in target:
            target = b"http://" + host.rstrip(b".") + target
        val = r.choice(VALS) if r.random() < 0.6 else None
        if val is not None:
            hdrs.append((b"X-Val", val))
        if r.random() < 0.2:
            hdrs.append((b"X-Val", b"second value"))
            val = (val + b", " if val else b"") + b"second value"
        env = r.choice([None, b"e1", b"\\t", b"\xe9"])
        if env is not None:
            hdrs.append((b"X-Env", env))
        hdrs.append((b"X-Id", rid))
        if r.random() < 0.15:
            hdrs.append((b"Connection", b"close"))
        elif ver == "1.0" and r.random() < 0.6:
            hdrs.append((b"Connection", b"keep-alive"))
        r.shuffle(hdrs)
        if val is not None and [v for k, v in hdrs if k == b"X-Val"][0] == b"second value":
            vs = [v for k, v in hdrs if k == b"X-Val"]
            val = b", ".join(vs)
        raw = http.build_request(method, target, hdrs, body=body, version=ver, host=host)
        sp = urlref.split(target)
        e.update(id=rid, m=method.encode(), raw=raw, ver=ver, host=host, val=val or b"", env=env or b"", kind=kind, target=target, sp=sp, log=(log2 if host.lower().split(b":")[0].rstrip(b".") == b"second" else log1))
        if sp:
            p = sp[1]
            if p.startswith(b"/none/"):
                e["log"] = None
        return rid, method, e

    def record(e, rsp, wire, src, t0, t1, alone):
        e.update(status=rsp.status, body=len(rsp.body), wire=wire, src=src, t0=t0, t1=t1, alone=alone, ka=rsp.keepalive(), out=b", ".join(rsp.all(b"x-out")), chunked=rsp.get(b"transfer-encoding") is not None)
        exp[e["id"]] = e
        chk.ok(kind=e["kind"], status=rsp.status, method=e["m"].decode(), pipelined=not alone)

    def client(j):
        r = chk.rng("client", j)
        src = "127.0.%d.%d" % (r.randrange(1, 20), j + 1)
        c = None
        todo = chk.n(220)
        while todo > 0 and len(chk.violations) < 6:
            if c is None:
                c = CConn(port=srv.port, src=src, timeout=60)
            k = r.random()
            if k < 0.08:
                # refused while reading the header; identified by its source address
                if c:
                    c.close()
                c = None
                bad(r, j, todo)
                todo -= 1
                continue
            if k < 0.12:
                # aborted: at most one line
                rid, method, e = gen(r)
                aborted[rid] = e
                c.send(e["raw"] if r.random() < 0.6 else e["raw"][:r.randrange(1, len(e["raw"]))])
                time.sleep(r.choice([0, 0.001, 0.01]))
                c.rst()
                c = None
                todo -= 1
                continue
            n = r.choice([1, 1, 1, 1, 2, 5])
            batch = []
            for _ in range(n):
                x = gen(r)
                while n > 1 and (x[2]["kind"] == "continue" or x[2]["ver"] == "1.0" or x[2]["m"] == b"POST" or b"Connection" in x[2]["raw"] or x[2].get("minD")):
                    x = gen(r)
                batch.append(x)
            t0 = time.time()
            c.send(b"".join(x[2]["raw"] for x in batch))
            todo -= n
            for i, (rid, method, e) in enumerate(batch):
                p0 = c.pos()
                try:
                    rsp = c.read_response(method)
                except http.Closed as ex:
                    if e["kind"] in ("dead", "p"):
                        for x in batch[i:]:
                            aborted[x[0]] = x[2]
                        c.close()
                        c = None
                        break
                    chk.violation("noanswer", "request not answered: %s" % ex, {"request": e["raw"]})
                    return
                record(e, rsp, c.pos() - p0, src, t0, time.time(), n == 1)
                if not rsp.keepalive():
                    for x in batch[i + 1:]:
                        aborted[x[0]] = x[2]
                    c.close()
                    c = None
                    break
        if c:
            c.close()

    badexp = {}

    def bad(r, j, k):
        src = "127.%d.%d.%d" % (100 + j, k // 200, k % 200 + 1)
        what, raw, st_ = r.choice([
            ("garbage", b"GET\r\n\r\n", 400), ("ctl", b"GET /\x01 HTTP/1.1\r\nHost: x\r\n\r\n", 400), ("nohost", b"GET /x HTTP/1.1\r\n\r\n", 400),
            ("version", b"GET /x HTTP/2.7\r\nHost: x\r\n\r\n", 505), ("uri", b"GET /" + b"x" * 9000 + b" HTTP/1.1\r\nHost: x\r\n\r\n", 414), ("hdr", b"GET / HTTP/1.1\r\nHost: x\r\nX-Y: " + b"y" * 70000 + b"\r\n\r\n", 413),
            ("length", b"POST /r/ HTTP/1.1\r\nHost: x\r\n\r\n", 411), ("te", b"POST /r/ HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: gzip\r\n\r\n", 501), ("expect", b"GET /r/ HTTP/1.1\r\nHost: x\r\nExpect: y\r\n\r\n", 417),
            ("quote", b'GET /r/ HTTP/1.1\r\nHost: x\r\nX-Val: "a\r\n\r\n', 400), ("hosts", b"GET /%0a HTTP/1.1\r\nHost: x\r\nHost: y\r\n\r\n", 400)])
        c = CConn(port=srv.port, src=src, timeout=60)
        c.send(raw)
        try:
            rsp = c.read_response("GET")
            badexp[src] = (what, rsp.status, len(rsp.body))
            chk.ok(kind="bad:" + what, status=rsp.status)
        except (http.Closed, http.ProtoError):
            badexp[src] = (what, None, 0)   # the answer may be destroyed by a reset when the request is not read completely
        c.close()

    def idle():
        """log targets are closed after 30 s without use and have to be opened again"""
        lg, lg2 = d + "/idle.log", d + "/idle-two.log"
        s = server.Server(chk, 'if req.path == "/two" { accesslog "%s"; } respond 200 => "x";' % lg2, setup='accesslog "%s"; accesslog.format "%%U";' % lg, modules=["mod_accesslog"]).start()
        n = 0
        for rnd in range(2):
            for p in ("/one", "/two", "/one"):
                http.get(s.port, p)
                n += 1
            if rnd == 0:
                time.sleep(32)
        s.verify("idle log targets")
        s.stop()
        got = [open(x, "rb").read().split(b"\n")[:-1] if os.path.exists(x) else [] for x in (lg, lg2)]
        if got != [[b"/one"] * 4, [b"/two"] * 2]:
            chk.violation("idle", "lines in the two logs after an idle time: %r" % got, {})
        chk.ok(6, kind="idle-target")

    it = threading.Thread(target=idle, daemon=True)
    it.start()
    check.parallel(10, client, list(range(10)))
    # lines become visible while the server runs
    want = sum(1 for e in exp.values() if e["log"])
    t = time.time()
    while True:
        have = sum(open(x, "rb").read().count(b"\n") for x in (log1, log2) if os.path.exists(x))
        if have >= want:
            break
        if time.time() - t > 20:
            break   # reported below
        time.sleep(0.2)
    srv.verify("end")
    t_end = time.time()
    # requests in flight right before the shutdown are logged, too
    cs = []
    for k in range(20):
        rid, method, e = gen(chk.rng("last", k))
        if e["kind"] == "dead" or e.get("minD"):
            continue
        c = CConn(port=srv.port, src="127.0.99.%d" % (k + 1), timeout=60)
        c.send(e["raw"])
        cs.append((c, e, method))
    for c, e, method in cs:
        t0 = time.time()
        rsp = c.read_response(method)
        record(e, rsp, c.pos(), c.s.getsockname()[0], t0 - 5, time.time(), True)
    srv.stop()
    for c, e, method in cs:
        c.close()
    it.join(200)
    if it.is_alive():
        raise RuntimeError("idle log check did not end")

    seen = collections.Counter()
    badseen = collections.Counter()
    for path in (log1, log2):
        data = open(path, "rb").read() if os.path.exists(path) else b""
        if data and not data.endswith(b"\n"):
            chk.violation("partial", "log does not end with a line end", {"tail": data[-200:]})
        for line in data.split(b"\n")[:-1]:
            ctl = [x for x in line if x < 32 or x > 126]
            if ctl:
                chk.violation("control", "control or non-ascii byte %r in a log line" % ctl[0], {"line": line})
                continue
            m = LINE.match(line)
            if not m:
                chk.violation("format", "line does not follow the configured format", {"line": line})
                continue
            f = dict(zip(NAMES, m.groups()))
            chk.ok(lines=os.path.basename(path))
            rid = f["id"]
            if rid in exp:
                seen[rid] += 1
                judge(chk, exp[rid], f, line, path, srv)
            elif rid in aborted:
                seen[rid] += 1
                if f["X"] == b"+" and False:
                    pass
            elif f["h"].decode() in badexp:
                src = f["h"].decode()
                badseen[src] += 1
                what, stt, bl = badexp[src]
                if stt is not None and int(f["s"]) != stt:
                    chk.violation("bad:status", "%s: answered %s, logged %s" % (what, stt, f["s"].decode()), {"line": line})
                if stt is not None and int(f["B"]) != bl:
                    chk.violation("bad:size", "%s: body of %d bytes, logged %s" % (what, bl, f["B"].decode()), {"line": line})
                if f["X"] == b"+":
                    chk.violation("bad:x", "%s: logged as keep-alive" % what, {"line": line})
            else:
                chk.violation("forged", "line for a request nobody sent", {"line": line})
    for rid, e in exp.items():
        n = seen[rid]
        w = 1 if e["log"] else 0
        if n != w:
            chk.violation("count:%s" % ("missing" if n < w else "twice"), "%d lines for an answered request (%d expected)" % (n, w), {"request": e["raw"], "status": e["status"], "kind": e["kind"]})
    for rid in aborted:
        if seen[rid] > 1:
            chk.violation("count:aborted", "%d lines for one aborted request" % seen[rid], {"request": aborted[rid]["raw"]})
    for src, (what, stt, _) in badexp.items():
        n = badseen[src]
        if n > 1 or (n == 0 and stt is not None):
            chk.violation("count:bad", "%d lines for a refused request (%s, answered %s)" % (n, what, stt), {"source": src})
    for e in st.errors:
        raise RuntimeError(e)


def judge(chk, e, f, line, path, srv):
    def bad(k, got, want):
        chk.violation("field:%s" % k, "%%%s is %r, expected %r" % (k, got, want), {"line": line, "request": e["raw"], "kind": e["kind"]})

    def eq(k, want):
        if f[k] != want:
            bad(k, f[k], want)
    if path != e["log"]:
        bad("file", path, e["log"])
    eq("m", e["m"])
    eq("s", b"%d" % e["status"])
    eq("s2", b"%d" % e["status"])
    host = e["host"].lower().split(b":")[0].rstrip(b".")
    eq("V", host)
    eq("v", b"the server" if host == b"named" else host)
    sp = e["sp"]
    if sp:
        eq("U", esc(sp[1]))
        eq("q", esc(dash(sp[2])))
        eq("r", e["m"] + b" " + esc(sp[3]) + b" HTTP/" + e["ver"].encode())
    eq("val", esc(dash(e["val"])))
    eq("out", esc(dash(e["out"])))
    eq("env", esc(b"v:" + e["env"]))
    eq("u", esc(e.get("u", b"-")))
    eq("h", e["src"].encode())
    eq("a", e["src"].encode())
    eq("p", b"%d" % srv.port)
    eq("A", b"127.0.0.1")
    n = e["body"]
    if e["chunked"]:
        if not (n <= int(f["B"]) <= n + 64 + n // 64):
            bad("B", f["B"], n)
    else:
        eq("B", b"%d" % n)
    eq("b", b"-" if f["B"] == b"0" else f["B"])
    if e["alone"]:
        eq("I", b"%d" % len(e["raw"]))
        eq("O", b"%d" % e["wire"])
    eq("X", b"+" if e["ka"] else b"-")
    D = int(f["D"])
    if D > (e["t1"] - e["t0"] + 2) * 1e6 or D < e.get("minD", 0) or int(f["T"]) not in (D // 1000000, int(D / 1e6 + 0.5)):
        bad("D", (f["D"], f["T"]), "%f seconds" % (e["t1"] - e["t0"]))
    try:
        t = time.mktime(time.strptime(re.sub(r" [+-]\d+\]$", "", f["t"].decode()[1:]), "%d/%b/%Y:%H:%M:%S"))
    except ValueError:
        t = 0
    if not (e["t0"] - 3 <= t <= e["t1"] + 3):
        bad("t", f["t"], time.ctime(e["t0"]))


if __name__ == "__main__":
    c = check.Check("P20", rule="one evaluation = one request or one access log line reconciled with the client's record (all fields of the line against an independent model); distinct = request kinds x answers")
    check.run(c, run, min_evals=3000)
