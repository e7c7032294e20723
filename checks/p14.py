"""P14: balancers spread load as configured, avoid backends found unreachable, recover; failures stay contained."""
import collections
import os
import socket
import struct
import subprocess
import threading
import time

from vf import backends, build, check, http, server

KINDS = ["proxy", "fastcgi", "scgi"]


class Back:
    """a backend on a fixed port that can be down (refusing) or up; answers with its name"""

    def __init__(self, chk, kind, name):
        self.kind, self.name = kind, name
        self.port = server.free_port()
        self.stub = None
        self.count = 0
        self.rids = collections.Counter()
        self.lock = threading.Lock()
        self.hold = {}
        chk.cleanup(self.down)

    def handler(self, rec):
        t = (rec.target if rec.target is not None else rec.env.get(b"REQUEST_URI", b"")).decode()
        rid = t.rsplit("/", 1)[1]
        with self.lock:
            self.count += 1
            self.rids[rid] += 1
            ev = self.hold.get(rid)
        n = self.name.encode()
        head = (b"HTTP/1.1 200 OK\r\n" if self.kind == "proxy" else b"Status: 200\r\n") + b"Content-Length: %d\r\n\r\n" % len(n)
        end = [("end",)] if self.kind == "fastcgi" else []
        if ev is None:
            return [("send", head + n)] + end
        return [("send", head + n[:1]), ("wait", ev), ("send", n[1:])] + end

    def up(self):
        for _ in range(50):
            try:
                self.stub = backends.KINDS[self.kind](self.handler, port=self.port, backlog=1024)
                return self
            except OSError:
                time.sleep(0.1)
        raise RuntimeError("cannot bind port %d again" % self.port)

    def down(self):
        if self.stub:
            self.stub.stop()
            self.stub = None

    @property
    def alive(self):
        return self.stub is not None

    def act(self):
        return '{ %s "127.0.0.1:%d"; }' % (self.kind, self.port)


def frec(t, data):
    return struct.pack(">BBHHBB", 1, t, 1, len(data), 0, 0) + data


def orphan_modes(kind):
    """what a backend does with a connection on which it never got a request: (name, bytes, how it ends)"""
    if kind == "fastcgi":
        msgs = [("nothing", b""), ("end", frec(3, b"\0" * 8)), ("stdout-eof", frec(6, b"")), ("response", frec(6, b"Status: 200\r\n\r\nsmuggled")),
                ("complete", frec(6, b"Status: 200\r\n\r\nsmuggled") + frec(6, b"") + frec(3, b"\0" * 8)), ("part", frec(6, b"abcdef")[:5]), ("garbage", b"\x05garbage!")]
    else:
        st = b"HTTP/1.1 200 OK\r\n" if kind == "proxy" else b"Status: 200\r\n"
        msgs = [("nothing", b""), ("response", st + b"Content-Length: 8\r\n\r\nsmuggled"), ("part", st[:4]), ("garbage", b"\0\xff\0")]
    return [(n, m, e) for n, m in msgs for e in ("close", "rst", "open")]


def orphans(chk):
    """the client goes away while the server still connects to the backend; what the backend then does with that unused connection must not hurt anybody"""
    cases = [(k,) + m for k in KINDS for m in orphan_modes(k)]
    if chk.tier == "quick":
        # all of fastcgi, and a sample of the others
        r = chk.rng("orphans")
        cases = [c for c in cases if c[0] == "fastcgi" or r.random() < 0.5]
    ls, conf, fills = [], "", []
    for i, c in enumerate(cases):
        l = socket.socket()
        l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        l.bind(("127.0.0.1", 0))
        l.listen(0)
        ls.append(l)
        f = []
        for _ in range(4):
            s = socket.socket()
            s.setblocking(False)
            try:
                s.connect(l.getsockname())
            except OSError:
                pass
            f.append(s)
        fills.append(f)
        conf += 'if req.path =^ "/o%d/" { %s "127.0.0.1:%d"; }\n' % (i, c[0], l.getsockname()[1])
    chk.cleanup(lambda: [s.close() for s in ls + [x for f in fills for x in f]])
    conf += 'respond 200 => "plain";\n'
    # one worker and few workers: the connection may have to move to the worker of the next request
    srvs = [server.Server(chk, conf, modules=["mod_proxy", "mod_fastcgi", "mod_scgi"], workers=w, name="orphan%d" % w).start() for w in (1, 3)]

    def one(i):
        kind, name, msg, end = cases[i]
        srv = srvs[i % 2]
        ctx = "orphaned %s connection, backend sends %s, then %s" % (kind, name, end)
        l, f = ls[i], fills[i]
        try:
            c = http.Conn(port=srv.port, timeout=10)
            c.send(http.build_request("GET", "/o%d/first" % i))
            time.sleep(0.3)
            c.rst()
            ours = {x.getsockname()[1] for x in f}
            l.settimeout(10)
            got, stop = None, time.time() + 10
            while time.time() < stop:
                try:
                    a, ad = l.accept()
                except socket.timeout:
                    break
                if ad[1] in ours:
                    a.close()
                    continue
                got = a
                break
            l.listen(50)
            if got is None:
                chk.count("orphan", "gave up connecting")
            else:
                chk.count("orphan", "connected")
                try:
                    got.sendall(msg)
                    time.sleep(0.15)
                    if end == "rst":
                        got.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    if end != "open":
                        got.close()
                except OSError:
                    pass
            stopping = []

            def serve():
                while not stopping:
                    try:
                        a, _ = l.accept()
                    except OSError:
                        continue
                    threading.Thread(target=answer, args=(a,), daemon=True).start()

            def answer(a):
                a.settimeout(5)
                try:
                    if a.recv(65536):
                        if kind == "fastcgi":
                            time.sleep(0.05)
                            a.sendall(frec(6, b"Status: 200\r\nContent-Length: 4\r\n\r\nfine") + frec(6, b"") + frec(3, b"\0" * 8))
                        else:
                            a.sendall((b"HTTP/1.1 200 OK\r\n" if kind == "proxy" else b"Status: 200\r\n") + b"Content-Length: 4\r\n\r\nfine")
                    time.sleep(0.1)
                except OSError:
                    pass
                a.close()

            th = threading.Thread(target=serve, daemon=True)
            th.start()
            if end == "open" and got is not None:
                threading.Thread(target=answer, args=(got,), daemon=True).start()
            good = 0
            for k in range(6):
                try:
                    r = http.get(srv.port, "/o%d/next%d" % (i, k), timeout=10)
                    if r.status == 200 and r.body != b"fine":
                        chk.violation("orphan-data", "%s: a later request was answered with %r" % (ctx, r.body[:60]), {"case": i})
                    good += r.status == 200
                except (http.Closed, http.Timeout, http.ProtoError, OSError):
                    pass
                if not srv.alive():
                    break
                if good >= 2:
                    break
                time.sleep(0.4)
            stopping.append(1)
            if srv.alive() and good < 2:
                chk.violation("orphan-stuck", "%s: later requests to the (working) backend are not answered" % ctx, {"case": i})
            chk.ok(1, orphan="%s-%s-%s" % (kind, name, end))
        except (OSError, http.Closed, http.Timeout, http.ProtoError) as e:
            if srv.alive():
                raise
            chk.count("orphan", "server gone: %s" % type(e).__name__)
        if not srv.alive() and not srv.reported:
            srv.verify(ctx)

    check.parallel(16, one, range(len(cases)))
    for s in srvs:
        if s.alive():
            s.verify("orphaned backend connections")
            s.stop()


def run(chk):
    build.build("asan")
    if chk.want("orphans"):
        orphans(chk)
    if not chk.want("main"):
        return
    so = os.path.join(chk.scratch, "connlog.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(os.path.dirname(__file__), "..", "vf", "connlog.c"), "-ldl"], check=True)
    log = os.path.join(chk.scratch, "connects.log")
    B = {}

    def back(kind, name, up=True):
        B[name] = Back(chk, kind, name)
        if up:
            B[name].up()
        return B[name].act()

    conf = "keepalive.requests 1000000; keepalive.timeout 120;\n"
    groups = {}
    for kind in KINDS:
        for meth in ("rr", "sqf"):
            for part, n in (("dist", 3), ("fail", 3), ("one", 1)):
                g = "%s-%s-%s" % (part, meth, kind)
                acts = [back(kind, "%s-%d" % (g, i), True) for i in range(n)]
                groups[g] = [B["%s-%d" % (g, i)] for i in range(n)]
                conf += 'if req.path =^ "/%s/" { balance.%s %s; }\n' % (g, meth, "(%s)" % ", ".join(acts) if n > 1 else acts[0])
        # nested: the inner balancer may be completely down while the outer one has another choice
        for inner in ("rr", "sqf"):
            g = "nest-%s-%s" % (inner, kind)
            a = [back(kind, "%s-%d" % (g, i), i == 2) for i in range(3)]
            groups[g] = [B["%s-%d" % (g, i)] for i in range(3)]
            conf += 'if req.path =^ "/%s/" { balance.rr ({ balance.%s (%s, %s); }, %s); }\n' % (g, inner, a[0], a[1], a[2])
        conf += 'if req.path =^ "/healthy-%s/" %s\n' % (kind, back(kind, "healthy-" + kind))
        conf += 'if req.path =^ "/dead-%s/" %s\n' % (kind, back(kind, "dead-" + kind, False))
    # deep blocks around a balancer
    deep = {}
    for d in (9, 10, 11, 12, 13, 14, 15, 16, 17, 30):
        g = "deep%d" % d
        a = [back("proxy", "%s-%d" % (g, i), i == 1) for i in range(2)]
        deep[g] = B[g + "-1"]
        conf += 'if req.path =^ "/%s/" { %s balance.rr (%s); %s }\n' % (g, "if req.path =^ \"/\" { " * d, ", ".join(a), "}" * d)
    # a backend whose accept queue is full: connecting to it neither succeeds nor fails
    ls = socket.socket()
    ls.bind(("127.0.0.1", 0))
    ls.listen(0)
    hang_port = ls.getsockname()[1]
    fill = []
    for _ in range(4):
        s = socket.socket()
        s.setblocking(False)
        try:
            s.connect(("127.0.0.1", hang_port))
        except OSError:
            pass
        fill.append(s)
    time.sleep(0.1)
    chk.cleanup(lambda: [s.close() for s in fill + [ls]])
    conf += 'if req.path =^ "/hang/" { proxy "127.0.0.1:%d"; }\n' % hang_port
    conf += 'if req.path =^ "/hangbal/" { balance.rr ({ proxy "127.0.0.1:%d"; }, %s); }\n' % (hang_port, back("proxy", "hangbal-live"))
    srv = server.Server(chk, conf, modules=["mod_balance", "mod_proxy", "mod_fastcgi", "mod_scgi"], workers=4, preload=so,
                        env={"VF_CONNLOG": log}).start()
    seq = [0]
    sl = threading.Lock()

    def newid():
        with sl:
            seq[0] += 1
            return "r%d" % seq[0]

    def ask(g, c=None, rid=None, timeout=60):
        """-> (status, name, seconds)"""
        own = c is None
        if own:
            c = http.Conn(port=srv.port, timeout=timeout)
        t = time.monotonic()
        rid = rid or newid()
        try:
            c.send(http.build_request("GET", "/%s/%s" % (g, rid)))
            r = c.read_response("GET")
            return r.status, r.body.decode("latin-1"), time.monotonic() - t
        finally:
            if own:
                c.close()

    errs = []

    def guard(fn):
        def w(*a):
            try:
                fn(*a)
            except (http.Closed, http.ProtoError, http.Timeout) as e:
                chk.violation("noanswer:%s" % fn.__name__, "%s%r: %s: %s" % (fn.__name__, a, type(e).__name__, e), {"part": fn.__name__})
            except Exception as e:
                import traceback
                traceback.print_exc()
                errs.append(e)
        return w

    # --- distribution with everything alive
    @guard
    def dist_serial(g):
        bs = groups[g]
        names = [b.name for b in bs]
        before = [b.count for b in bs]
        last = None
        cs = [http.Conn(port=srv.port, timeout=60) for _ in range(6)]
        n = chk.n(60)
        for i in range(n):
            st, body, _ = ask(g, cs[i % len(cs)])
            if st != 200 or body not in names:
                chk.violation("dist:answer", "%s: all backends alive, answered %d %r" % (g, st, body), {"group": g})
                return
            if "-rr-" in g and last is not None and names.index(body) != (names.index(last) + 1) % len(names):
                chk.violation("dist:rr-order", "%s: round robin went from %s to %s" % (g, last, body), {"group": g})
            last = body
            chk.ok(dist=g)
        diff = [b.count - x for b, x in zip(bs, before)]
        if sum(diff) != n:
            chk.violation("dist:count", "%s: %d requests reached the backends %d times" % (g, n, sum(diff)), {"group": g, "counts": diff})
        for c in cs:
            c.close()

    @guard
    def dist_parallel(g):
        bs = groups[g]
        before = [b.count for b in bs]
        per = chk.n(20)

        @guard
        def w(j):
            c = http.Conn(port=srv.port, timeout=60)
            for _ in range(per):
                st, body, _ = ask(g, c)
                if st != 200:
                    chk.violation("dist:answer", "%s: all backends alive, answered %d" % (g, st), {"group": g})
            c.close()
        ts = [threading.Thread(target=w, args=(j,)) for j in range(8)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        diff = [b.count - x for b, x in zip(bs, before)]
        if sum(diff) != 8 * per:
            chk.violation("dist:count", "%s: %d requests reached the backends %d times" % (g, 8 * per, sum(diff)), {"group": g})
        if "-rr-" in g and max(diff) - min(diff) > 1:
            chk.violation("dist:rr-spread", "%s: %d concurrent requests spread %r" % (g, 8 * per, diff), {"group": g})
        chk.ok(8 * per, distp=g)

    @guard
    def sqf_held(g):
        """the next request goes to a backend with the fewest requests in progress"""
        bs = groups[g]
        r = chk.rng("sqf", g)
        held = []
        loads = collections.Counter({b.name: 0 for b in bs})
        for step in range(chk.n(40)):
            if held and r.random() < 0.45:
                c, ev, name = held.pop(r.randrange(len(held)))
                ev.set()
                rsp = c.read_response("GET")
                if rsp.body.decode() != name:
                    chk.violation("sqf:body", "%s: answer changed" % g, {})
                c.close()
                loads[name] -= 1
                time.sleep(0.15)    # the server gives the slot back after the response went out
                continue
            rid = newid()
            ev = threading.Event()
            for b in bs:
                b.hold[rid] = ev
            c = http.Conn(port=srv.port, timeout=60)
            c.send(http.build_request("GET", "/%s/%s" % (g, rid)))
            t = time.time()
            got = []
            while not got and time.time() - t < 30:
                got = [b.name for b in bs if b.rids.get(rid)]
                time.sleep(0.002)
            if not got:
                chk.violation("sqf:lost", "%s: request reached no backend" % g, {"loads": dict(loads)})
                return
            mn = min(loads.values())
            if loads[got[0]] != mn:
                chk.violation("sqf:choice", "%s: request went to %s with %d in progress, %r" % (g, got[0], loads[got[0]], dict(loads)), {"loads": dict(loads)})
            loads[got[0]] += 1
            held.append((c, ev, got[0]))
            chk.ok(sqf=g, depth=min(mn, 3))
        for c, ev, name in held:
            ev.set()
            c.read_response("GET")
            c.close()

    @guard
    def sqf_moved(g):
        """requests moved away from failing backends (while another request keeps the remaining one busy); sqf_held looks
        later whether anything of them is still counted"""
        bs = groups[g]
        rid = newid()
        ev = threading.Event()
        for b in bs:
            b.hold[rid] = ev
        c = http.Conn(port=srv.port, timeout=60)
        c.send(http.build_request("GET", "/%s/%s" % (g, rid)))
        t = time.time()
        while not any(b.rids.get(rid) for b in bs) and time.time() - t < 30:
            time.sleep(0.002)
        busy = next((b for b in bs if b.rids.get(rid)), None)
        if busy is None:
            chk.violation("sqf:lost", "%s: request reached no backend" % g, {})
            return
        others = [b for b in bs if b is not busy]
        for b in others:
            b.down()
        time.sleep(0.1)
        for _ in range(3):
            st, body, dt = ask(g)
            if st != 200 or body != busy.name:
                chk.violation("sqf:moved", "%s: only %s works, answered %d %r" % (g, busy.name, st, body), {"group": g})
            chk.ok(sqfmoved=g)
        for b in others:
            b.up()
        ev.set()
        c.read_response("GET")
        c.close()

    # --- failures under serial load
    serial_windows = []

    @guard
    def failing(g):
        bs = groups[g]
        names = [b.name for b in bs]
        r = chk.rng("fail", g)
        t_end = time.monotonic() + chk.n(10)
        recovered = {}
        cs = [http.Conn(port=srv.port, timeout=60) for _ in range(3)]
        t_start = time.monotonic()
        toggle = time.monotonic() + 0.5
        downs = []
        i = 0
        while time.monotonic() < t_end or recovered:
            if time.monotonic() > t_end + 15:
                break
            if time.monotonic() > toggle and time.monotonic() < t_end:
                b = r.choice(bs)
                if b.alive and sum(x.alive for x in bs) > 1:
                    b.down()
                    recovered.pop(b.name, None)
                    downs.append([b, time.monotonic(), None])
                    time.sleep(0.3)
                elif not b.alive:
                    for d in downs:
                        if d[0] is b and d[2] is None:
                            d[2] = time.monotonic()
                    b.up()
                    recovered[b.name] = time.monotonic()
                toggle = time.monotonic() + r.choice([0.7, 1.3, 2.5])
            rid = newid()
            st, body, dt = ask(g, cs[i % 3], rid)
            i += 1
            alive = [b.name for b in bs if b.alive]
            if st != 200 or body not in alive:
                chk.violation("fail:answer", "%s: backends %r alive, answered %d %r" % (g, alive, st, body), {"group": g, "alive": alive})
                return
            if sum(b.rids.get(rid, 0) for b in bs) != 1:
                chk.violation("fail:once", "%s: request reached backends %d times" % (g, sum(b.rids.get(rid, 0) for b in bs)), {"group": g})
            if dt > 4:
                chk.violation("fail:slow", "%s: request took %.1f s although %r are alive" % (g, dt, alive), {"group": g})
            recovered.pop(body, None)
            for n, t in list(recovered.items()):
                # (sqf uses the first of equally loaded backends: only round robin has to come back to it)
                if "-rr-" not in g:
                    del recovered[n]
                elif time.monotonic() - t > 8:
                    chk.violation("fail:recover", "%s: %s works again since 8 s but got no request" % (g, n), {"group": g})
                    del recovered[n]
            chk.ok(fail=g, alive=len(alive))
            time.sleep(0.01)
        for d in downs:
            serial_windows.append((g, d[0], d[1], d[2] or time.monotonic()))
        for c in cs:
            c.close()

    @guard
    def alldown(g):
        """a balancer without usable backend keeps requests until one works again"""
        b = groups[g][0]
        b.down()
        time.sleep(0.2)
        n = 12
        res = []

        @guard
        def w(j):
            res.append(ask(g, timeout=60))

        def aborted(j):
            c = http.Conn(port=srv.port, timeout=60)
            c.send(http.build_request("GET", "/%s/%s" % (g, newid())))
            time.sleep(0.1 + j * 0.4)
            c.rst()
        ts = [threading.Thread(target=w, args=(j,)) for j in range(n)] + [threading.Thread(target=aborted, args=(j,)) for j in range(6)]
        [t.start() for t in ts]
        time.sleep(3.3)
        if any(x[0] == 200 for x in res):
            chk.violation("down:answer", "%s: 200 although the backend is down" % g, {"answers": res})
        b.up()
        t0 = time.monotonic()
        [t.join(60) for t in ts]
        waited = time.monotonic() - t0
        for st, body, dt in res:
            if st not in (200, 503, 504) or (st == 200 and body != b.name):
                chk.violation("down:answer", "%s: answered %d %r" % (g, st, body), {"answers": res})
            chk.ok(alldown=g, status=st)
        if len(res) != n or waited > 12:
            chk.violation("down:resume", "%s: %d of %d waiting requests answered within %.1f s after the backend came back" % (g, len(res), n, waited), {"group": g})
        # and it works normally again
        for _ in range(10):
            st, body, dt = ask(g)
            if st != 200:
                chk.violation("down:after", "%s: answered %d after recovery" % (g, st), {"group": g})
            chk.ok(after=g)

    @guard
    def nested(g):
        bs = groups[g]
        c = http.Conn(port=srv.port, timeout=30)
        t0 = time.monotonic()
        for i in range(chk.n(80)):
            if i == 40:
                bs[0].up()
                t1 = time.monotonic()
                bs[2].down()
                time.sleep(0.2)
            alive = [b.name for b in bs if b.alive]
            try:
                st, body, dt = ask(g, c)
            except http.Timeout:
                chk.violation("nest:hang", "%s: request not answered in 30 s although %r are alive" % (g, alive), {"group": g})
                return
            if st != 200 or body not in alive:
                chk.violation("nest:answer", "%s: answered %d %r, alive are %r" % (g, st, body, alive), {"group": g})
                return
            if dt > 5:
                chk.violation("nest:slow", "%s: request took %.1f s although %r are alive" % (g, dt, alive), {"group": g})
            chk.ok(nest=g, phase=i >= 40)
            time.sleep(0.02)
        c.close()

    @guard
    def direct(kind):
        for i in range(chk.n(30)):
            st, body, dt = ask("dead-" + kind)
            if st not in (503, 504) or dt > 5:
                chk.violation("direct:dead", "unreachable %s backend: answered %d after %.1f s" % (kind, st, dt), {"kind": kind})
            chk.ok(direct=kind, status=st)

    @guard
    def deeps():
        for g, b in deep.items():
            for i in range(4):
                st, body, dt = ask(g)
                if st != 200 or body != b.name:
                    chk.violation("deep:answer", "%s: answered %d %r" % (g, st, body), {"group": g})
                chk.ok(deep=g)

    @guard
    def hang():
        res = []

        @guard
        def w(g, n):
            res.append((g, ask(g, timeout=40)))
        ts = [threading.Thread(target=w, args=("hang", i)) for i in range(4)] + [threading.Thread(target=w, args=("hangbal", i)) for i in range(6)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for g, (st, body, dt) in res:
            if g == "hang":
                if st not in (503, 504) or dt > 20:
                    chk.violation("hang:direct", "backend that does not accept: answered %d after %.1f s" % (st, dt), {})
            elif st != 200 or body != "hangbal-live" or dt > 25:
                chk.violation("hang:balancer", "balancer with a backend that does not accept and a live one: answered %d %r after %.1f s" % (st, body, dt), {})
            chk.ok(hang=g, status=st)

    stop = threading.Event()

    @guard
    def healthy(kind):
        """requests to other backends never notice"""
        c = http.Conn(port=srv.port, timeout=60)
        worst = 0
        while not stop.is_set():
            st, body, dt = ask("healthy-" + kind, c)
            worst = max(worst, dt)
            if st != 200 or body != "healthy-" + kind:
                chk.violation("isolation", "healthy %s backend: answered %d %r" % (kind, st, body), {"kind": kind})
                return
            if dt > 4:
                chk.violation("isolation-slow", "healthy %s backend: answer took %.1f s" % (kind, dt), {"kind": kind})
            chk.ok(healthy=kind)
            time.sleep(0.01)
        c.close()

    hs = [threading.Thread(target=healthy, args=(k,), daemon=True) for k in KINDS]
    [t.start() for t in hs]
    nfd = None
    dist = [g for g in groups if g.startswith("dist")]
    check.parallel(6, dist_serial, dist)
    check.parallel(2, dist_parallel, dist)
    check.parallel(6, sqf_held, [g for g in dist if "-sqf-" in g])
    check.parallel(6, sqf_moved, [g for g in dist if "-sqf-" in g])
    moved_at = time.monotonic()
    jobs = [(failing, g) for g in groups if g.startswith("fail")] + [(alldown, g) for g in groups if g.startswith("one")] + [(nested, g) for g in groups if g.startswith("nest")] + [(direct, k) for k in KINDS] + [(lambda x: deeps(), 0), (lambda x: hang(), 0)]
    check.parallel(len(jobs), lambda j: j[0](j[1]), jobs)
    # after the failures: once every backend works again (and was not tried for a while), all of them take part again with
    # nothing left over from requests that were moved away from them
    time.sleep(max(0, 12 - (time.monotonic() - moved_at)))
    check.parallel(6, sqf_held, [g for g in dist if "-sqf-" in g])
    stop.set()
    [t.join(30) for t in hs]
    if errs:
        raise errs[0]
    # a backend found unreachable must be left alone for a while as long as another one works
    con = collections.defaultdict(list)
    with open(log) as f:
        for l in f:
            t, port, res = l.split()
            con[int(port)].append(float(t))
    for g, b, t0, t1 in serial_windows:
        ts = sorted(t for t in con[b.port] if t0 + 0.25 < t < t1 - 0.05)
        for a, c2 in zip(ts, ts[1:]):
            if c2 - a < 0.8:
                chk.violation("retry", "%s: %s was down, connection attempts only %.2f s apart although others work" % (g, b.name, c2 - a), {"attempts": ts})
                break
        chk.ok(1 + len(ts), attempts=min(len(ts), 5))
    chk.count("connects", "logged", sum(len(x) for x in con.values()))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P14", rule="one evaluation = one balanced or directly routed request whose answering backend, number of deliveries and latency were compared with the backends alive then, or one observed retry interval; distinct = balancer kinds x phases")
    check.run(c, run, min_evals=3000)
