"""P25: throttled transfers keep to their rate and arrive completely

Oracle: token bucket.  For every throttled scope (connection, pool, client address) and every instant t at which the
client has received n bytes since an instant t0 (taken before the server could have sent any of them):
    n <= burst + rate * (t - t0) + overload
A client that is late only makes n smaller, so the bound can't be broken by a slow test machine.  The other direction
(unused rate is not lost) is judged by the time of the whole transfer, repeated before it counts.
"""
import os
import socket
import ssl
import struct
import subprocess
import threading
import time

from vf import backends, build, check, http, server

CA = os.path.join(build.REPO, "tests/ca")
K = 1024
OVER = 8 * K + 2 * K      # released even when the magazine is empty, plus one buffered read
STEP = 64 * K             # taken from the magazine in one step, kept by the connection if there was less to send
TICK = 0.25


def data(n, tag):
    b = (b"%s-%%07d|" % tag)
    o = b"".join(b % i for i in range(n // 10 + 1))
    return o[:n]


class Meter:
    """bytes received by all members of one throttled scope, with time stamps"""

    def __init__(self):
        self.lock = threading.Lock()
        self.ev = []
        self.n = 0
        self.t0 = None

    def start(self):
        with self.lock:
            if self.t0 is None:
                self.t0 = time.monotonic()

    def add(self, n):
        with self.lock:
            self.n += n
            self.ev.append((time.monotonic(), self.n))

    def worst(self, rate):
        """largest excess over rate * time since the start"""
        return max((n - rate * (t - self.t0) for t, n in self.ev), default=0)


class Tap:
    """socket that counts what is received"""

    def __init__(self, s, meters):
        self.s, self.m = s, meters

    def recv(self, n):
        d = self.s.recv(min(n, 16384))
        for m in self.m:
            m.add(len(d))
        return d

    def __getattr__(self, k):
        return getattr(self.s, k)


def tcp(s):
    ports = {"%04X" % p for p in s.tls.values()}
    return [x.split()[1:5] for x in open("/proc/net/tcp").read().splitlines()[1:] if x.split()[1].split(":")[1] in ports]


def nfds(s):
    return sum(1 for x in s.fds().values() if x.startswith("socket:") or ".bin" in x)


def connect(port, meters, tls=False, src=None, host="127.0.0.1"):
    s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
    s.settimeout(40)
    if src:
        s.bind((src, 0))
    s.connect((host, port))
    if tls:
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        s = ctx.wrap_socket(s, server_hostname="test1.ssl")
    return http.Conn(sock=Tap(s, meters), timeout=40)


def run(chk):
    build.build("asan")
    d = chk.scratch + "/doc"
    os.makedirs(d)
    files = {}

    def body(n):
        if n not in files:
            files[n] = data(n, b"%04x" % (n & 0xffff))
            with open(os.path.join(d, "%d.bin" % n), "wb") as f:
                f.write(files[n])
        return files[n]
    flood = {}

    def handler(kind):
        def h(rec):
            t = rec.target if kind == "proxy" else rec.env.get(b"REQUEST_URI", b"")
            # /…/<first>-<pause ms>-<rest>-<key>
            a, p, b, key = t.rsplit(b"/", 1)[-1].split(b"-")
            a, p, b = int(a), int(p), int(b)
            head = b"HTTP/1.1 200 OK\r\n" if kind == "proxy" else b"Status: 200 OK\r\n"
            head += b"Content-Length: %d\r\n\r\n" % (a + b)
            full = data(a + b, b"be")

            def go():
                flood[key] = time.monotonic()
            acts = [("send", head + full[:a]), ("sleep", p / 1000.0), ("call", go), ("send", full[a:])]
            return acts + ([("end",)] if kind == "fastcgi" else [("close",)])
        return h
    stubs = {k: cls(handler(k), backlog=256) for k, cls in backends.KINDS.items()}
    for s in stubs.values():
        chk.cleanup(s.stop)

    def verdict(name, m, rate, burst, conns, extra=None, over=None):
        ex = m.worst(rate)
        lim = burst + (OVER if over is None else over) * conns + rate * TICK
        chk.ok(scope=name, points="%d" % min(9, len(m.ev) // 50))
        if ex > lim:
            return ("rate:" + name, "%s: %d bytes more than rate*time (rate %d, burst %d, %d connections, allowed excess %d)" % (name, ex, rate, burst, conns, lim), extra or {})
        return None

    def slow(name, took, allowed, what):
        if took > allowed:
            return ("slow:" + name, "%s took %.1f s, at that rate it should take at most %.1f s" % (what, took, allowed), {})
        return None

    def fetch(c, path, want, meters):
        for m in meters:
            m.start()
        c.send(http.build_request("GET", path))
        rsp = c.read_response("GET")
        if rsp.status != 200 or rsp.body != want:
            return ("lost", "throttled response %s: status %d, %d of %d bytes%s" % (path, rsp.status, len(rsp.body), len(want), "" if len(rsp.body) != len(want) else " (different)"), {})
        return None

    TAIL = """
if req.path =^ "/proxy/" { proxy "%s"; } else if req.path =^ "/fastcgi/" { fastcgi "%s"; } else if req.path =^ "/scgi/" { scgi "%s"; }
docroot "%s"; static;
""" % (stubs["proxy"].addr(), stubs["fastcgi"].addr(), stubs["scgi"].addr(), d)

    so = os.path.join(chk.scratch, "clockshift.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(os.path.dirname(backends.__file__), "clockshift.c"), "-ldl"], check=True)

    def mk(r, cond, name, p6=None, wrap=None, delay=0, timeout=20):
        env = {}
        if wrap is not None:    # the 32-bit millisecond counter wraps this many seconds after the start of the server
            env["VF_CLOCK_SHIFT"] = "%.3f" % ((2 ** 32 - time.time() * 1000 % 2 ** 32) / 1000.0 - wrap)
        if delay:
            env["VF_CLOCK_DELAY"] = "%d" % delay
        chk.count("clock", "wraps" if wrap is not None else "plain")
        tls, tls2 = server.free_port(), server.free_port()
        w = r.choice([1, 2, 4])
        s = server.Server(chk, cond + TAIL, modules=["mod_throttle", "mod_proxy", "mod_fastcgi", "mod_scgi", "mod_openssl", "mod_gnutls"], workers=w, name=name, preload=so if env else None, env=env, leaks=timeout < 20, setup="""io.timeout %d;
openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "ca-file" => "%s/intermediate.crt" ];
gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem" ];
%s""" % (timeout, tls, CA, CA, tls2, CA, 'listen "[::1]:%d";' % p6 if p6 else ""))
        s.start().wait_port(tls).wait_port(tls2)
        s.tls = {"plain": s.port, "openssl": tls, "gnutls": tls2}
        s.w = w
        return s

    # ---- one connection, several requests after each other, pauses in between
    def single(i):
        r = chk.rng("single", i)
        rate = r.choice([16, 64, 200, 777, 3000]) * K
        burst = r.choice([None, int(rate * 0.21), rate, 3 * rate])
        arg = "%d" % rate if burst is None else "(%d => %d)" % (burst, rate)
        burst = 2 * rate if burst is None else burst
        how = r.choice(["plain", "plain", "openssl", "gnutls"])
        s = mk(r, 'io.throttle %s;' % arg, "single%d" % i, wrap=r.uniform(1, 5) if r.random() < 0.3 else None)
        m = Meter()
        v = None
        secs = 3.0
        c = connect(s.tls[how], [m], tls=how != "plain")
        c0 = time.monotonic()
        total = 0
        target = int(burst + rate * secs)
        try:
            while total < target:
                n = min(r.choice([target - total, r.randrange(1, 4000), r.randrange(1, burst), r.randrange(1, rate)]), target - total + 1000)
                v = v or fetch(c, "/%d.bin" % n, body(n), [m])
                total += n
                if v:
                    break
        finally:
            c.close()
        took = time.monotonic() - c0
        what = "single/" + how
        # TLS framing counts as well
        v = v or verdict(what, m, rate, burst, 1, {"rate": rate, "burst": burst, "conf": arg})
        v = v or slow(what, took, secs * 1.25 + 1.5, "%d bytes over one connection (rate %d, burst %d, %s)" % (total, rate, burst, how))
        s.verify("single")
        s.stop()
        return v

    # ---- nothing is saved up beyond the burst while there is nothing to send
    def pause(i):
        r = chk.rng("pause", i)
        rate = r.choice([100, 200, 400]) * K
        burst = r.choice([int(rate * 0.25), rate // 2])
        kind = r.choice(["proxy", "fastcgi", "scgi"])
        s = mk(r, 'io.throttle (%d => %d);' % (burst, rate), "pause%d" % i)
        key = b"p%d" % i
        a, p, b = r.randrange(100, 20000), r.randrange(2500, 3500), int(burst + 1.5 * rate)
        full = data(a + b, b"be")
        m = Meter()
        c = connect(s.port, [m])
        v = fetch(c, "/%s/%d-%d-%d-%s" % (kind, a, p, b, key.decode()), full, [m])
        c.close()
        if v is None:
            t1 = flood[key]
            m2 = Meter()
            m2.t0 = t1
            before = max((n for t, n in m.ev if t < t1), default=0)
            m2.ev = [(t, n - before) for t, n in m.ev if t >= t1]
            v = verdict("pause/" + kind, m2, rate, burst, 1, {"rate": rate, "burst": burst}, over=OVER + STEP)
        s.verify("pause")
        s.stop()
        return v

    # ---- pools: all members together
    def pool(i):
        r = chk.rng("pool", i)
        rate = r.choice([100, 500, 2000]) * K
        n = r.choice([2, 5, 12])
        mode = r.choice(["pool", "pool", "pool2", "pool+single", "ip", "ip", "ip6"])
        p6 = None
        if mode == "ip6":
            try:
                p6 = server.free_port("::1")
            except OSError:
                mode = "ip"
        secs = 3.0
        if mode == "pool":
            # one pool used in two places
            cond = 'lim = { io.throttle_pool %d; };\nif req.query == "a" and req.path =$ "bin" { lim; } else { lim; }' % rate
        elif mode == "pool2":
            cond = 'if req.query == "a" { io.throttle_pool %d; } else { io.throttle_pool %d; }' % (rate, rate)
        elif mode == "pool+single":
            cond = 'io.throttle_pool %d; io.throttle (%d => %d);' % (rate, rate // 2, rate // 2)
        else:
            cond = 'io.throttle_ip %d;' % rate
        s = mk(r, cond, "pool%d" % i, p6, wrap=r.uniform(1, 5) if r.random() < 0.3 else None, delay=r.choice([0, 40, 150]))
        groups = {"a": Meter()}
        if mode in ("pool2", "ip"):
            groups["b"] = Meter()
        size = int(rate * secs / n)
        body(size)
        res = []
        host = "127.0.0.1"
        port = s.port
        b4 = threading.Barrier(n * len(groups))
        took = {}

        def client(g, j):
            own = Meter()
            src = None
            if mode == "ip":
                src = "127.0.%d.1" % (1 if g == "a" else 2)
            try:
                c = connect(s.port if mode != "ip6" else p6, [groups[g], own], src=src, host=host if mode != "ip6" else "::1")
                b4.wait(30)
                t = time.monotonic()
                v = fetch(c, "/%d.bin?%s" % (size, g), files[size], [groups[g], own])
                took[(g, j)] = time.monotonic() - t
                c.close()
                if v is None and mode == "pool+single":
                    v = verdict("member", own, rate // 2, rate // 2, 1)
                res.append(v)
            except (http.Closed, http.Timeout, http.ProtoError, OSError) as ex:
                res.append(("lost", "throttled transfer failed: %r" % ex, {}))
        th = [threading.Thread(target=client, args=(g, j), daemon=True) for g in groups for j in range(n)]
        for t in th:
            t.start()
        for t in th:
            t.join(60)
        v = next((x for x in res if x), None)
        if v is None and len(res) != len(th):
            v = ("lost", "throttled transfers did not end", {})
        for g, m in groups.items():
            # (every worker starts with its part of the burst, even if the connections are spread unevenly)
            v = v or verdict(mode, m, rate, int(rate * (2 - 1.0 / s.w)), n, {"rate": rate, "connections": n, "conf": cond})
        if v is None:
            v = slow(mode, max(took.values()), secs * (1.6 if mode != "pool+single" else 2.6) + 2.0, "%d transfers of %d bytes sharing %d bytes/s (%s)" % (n, size, rate, mode))
        s.verify("pool")
        s.stop()
        return v

    # ---- the limit of one connection is not the limit of another one; nothing throttled without the action
    def other(i):
        r = chk.rng("other", i)
        rate = 16 * K
        s = mk(r, 'if req.path =^ "/t/" { io.throttle %d; alias "/t/" => "%s/"; }' % (rate, d), "other%d" % i)
        n = 600000
        body(n)
        stop = threading.Event()

        def slowone():
            m = Meter()
            try:
                c = connect(s.port, [m])
                fetch(c, "/t/%d.bin" % n, files[n], [m])
            except (http.Closed, http.Timeout, OSError, http.ProtoError):
                pass
        th = [threading.Thread(target=slowone, daemon=True) for _ in range(4)]
        for t in th:
            t.start()
        time.sleep(0.3)
        v = None
        for _ in range(6):
            m = Meter()
            c = connect(s.port, [m])
            t0 = time.monotonic()
            v = v or fetch(c, "/%d.bin" % n, files[n], [m])
            v = v or slow("other", time.monotonic() - t0, 4.0, "unthrottled request next to throttled ones")
            c.close()
            chk.ok(scope="unthrottled")
        stop.set()
        s.verify("other")
        s.kill()
        return v

    # ---- members of a scope that abort or stall don't harm the server or the others
    def abort(i):
        r = chk.rng("abort", i)
        rate = 6000 * K     # stalled clients fill the socket buffers quickly
        cond = r.choice(['io.throttle_ip %d;', 'io.throttle_ip %d; io.throttle 4000kbyte;', 'io.throttle_pool %d;', 'io.throttle_pool %d; io.throttle_ip %d;', 'io.throttle %d;'])
        cond = cond.replace("%d", "%d" % rate)
        s = mk(r, cond, "abort%d" % i, timeout=2)
        n = 60000000
        with open(os.path.join(d, "%d.bin" % n), "wb") as f:
            f.truncate(n)
        base = nfds(s)
        v = None
        held = []
        for j in range(14):
            how = r.choice(["plain", "plain", "openssl", "gnutls"])
            c = connect(s.tls[how], [], tls=how != "plain", src="127.0.%d.1" % r.randrange(1, 3))
            if how == "plain" and r.random() < 0.2:
                c.send(b"GET /%d.bin HTTP/1.1\r\n" % n)
            else:
                c.send(http.build_request("GET", "/%d.bin" % n))
            k = r.random()
            if k < 0.3:
                held.append(c)      # never reads: closed by the io timeout
                continue
            time.sleep(r.uniform(0, 0.15))
            raw = c.s.s
            if k < 0.7:
                raw.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif k < 0.85:
                try:
                    raw.shutdown(socket.SHUT_WR)
                    time.sleep(0.02)
                except OSError:
                    pass
            c.close()
            chk.count("abort", ("rst" if k < 0.7 else "close") + "/" + how)
        n2 = 100000
        m = Meter()
        try:
            c = connect(s.port, [m], src="127.0.1.1")
            t0 = time.monotonic()
            v = fetch(c, "/%d.bin" % n2, body(n2), [m])
            v = v or slow("abort", time.monotonic() - t0, 8.0, "transfer of %d bytes after others were aborted (%s)" % (n2, cond))
            c.close()
        except (http.Closed, http.Timeout, http.ProtoError, OSError) as ex:
            v = ("abort-dead", "no answer after throttled transfers were aborted (%s): %r" % (cond, ex), {})
        t = time.time() + 30
        while s.alive() and nfds(s) > base and time.time() < t:
            time.sleep(0.1)
        if s.alive() and nfds(s) > base:
            v = v or ("abort-fds", "%d descriptors open 30 s after all clients were gone, %d before" % (nfds(s), base), {"conf": cond, "fds": [str(x) for x in s.fds().items()][:40], "tcp": tcp(s)})
        for c in held:
            c.close()
        s.verify("abort")
        s.stop()
        s.verify("abort", expect_alive=False)
        if v is None:
            chk.ok(scope="aborted", conf=cond)
        return v

    F = {"abort": abort, "single": single, "pause": pause, "pool": pool, "other": other}

    def one(it):
        f, i = it
        v = F[f](i)
        if v is not None:
            chk.count("retried", v[0])
            v2 = F[f](i)
            if v2 is not None:
                chk.violation(v2[0], v2[1], v2[2])
            else:
                chk.inconcl("%s %s" % (v[0], v[1]))
    items = [("single", i) for i in range(chk.n(24, 300))] + [("pause", i) for i in range(chk.n(10, 100))] + [("pool", i) for i in range(chk.n(16, 200))] + [("other", i) for i in range(chk.n(2, 10))] + [("abort", i) for i in range(chk.n(8, 100))]
    if chk.args.only:
        items = [x for x in items if x[0] in chk.args.only.split(",")]
    chk.rng("order").shuffle(items)
    check.parallel(12, one, items)


if __name__ == "__main__":
    c = check.Check("P25", rule="one evaluation = one throttled scope (connection, pool, address) whose received-byte trace was compared with the token bucket; distinct = kind of scope x transport")
    check.run(c, run, min_evals=30)
