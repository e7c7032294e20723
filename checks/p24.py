"""P24: connection and request limits are enforced exactly (mod_limit)."""
import collections
import threading
import time

from vf import backends, build, check, fakeaddr, http, server


class Held:
    def __init__(self):
        self.ev = threading.Event()
        self.mode = "ok"


def run(chk):
    build.build("asan")
    lock = threading.Lock()
    held = {}
    cur = collections.Counter()
    peak = collections.Counter()

    def handler(rec):
        # /<group>/<rid>; group = limit context; per-address groups are counted by (group, source)
        _, grp, key, rid = rec.target.decode().split("/", 3)
        h = held.get(rid)
        k = (grp, key)
        with lock:
            cur[k] += 1
            cur[grp] += 1
            peak[k] = max(peak[k], cur[k])
            peak[grp] = max(peak[grp], cur[grp])

        def done():
            with lock:
                cur[k] -= 1
                cur[grp] -= 1
        if h is None:
            return [("sleep", 0.01), ("call", done), ("raw", b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")]
        out = [("raw", b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\nfirst"), ("wait", h.ev), ("call", done)]

        def end():
            if h.mode == "ok":
                return [("raw", b"_last")]
            return [("close",)]
        return out + [("dyn", end)]

    class S(backends.HttpStub):
        def run_script(self, s, script, send):
            for a in script:
                if a[0] == "dyn":
                    if not backends.HttpStub.run_script(self, s, a[1](), send):
                        return False
                elif not backends.HttpStub.run_script(self, s, [a], send):
                    return False
            return True

    st = S(handler, backlog=2048)
    chk.cleanup(st.stop)

    conf = "keepalive.requests 1000000; keepalive.timeout 60;\n"
    groups = {}     # name -> (kind, limit, status when refused)

    def group(kind, n, how):
        name = "%s%d%s%d" % (kind.replace("_", ""), n, how[0], len(groups))
        act = {"plain": "limit.%s %d;" % (kind, n),
               "action": 'limit.%s %d => { respond 429 => "busy"; };' % (kind, n),
               "list": 'limit.%s (%d, { respond 429 => "busy"; });' % (kind, n)}[how]
        groups[name] = (kind, n, 503 if how == "plain" else 429)
        return name, 'if req.path =^ "/%s/" { %s @ }\n' % (name, act)

    txt = []
    for kind in ("con", "con_ip"):
        for n, how in ((1, "plain"), (2, "action"), (5, "plain"), (9, "list")):
            txt.append(group(kind, n, how)[1])
    for kind in ("req", "req_ip"):
        for n, how in ((1, "plain"), (3, "action"), (20, "plain")):
            txt.append(group(kind, n, how)[1])
    conf += "".join(txt).replace("@", 'proxy "%s";' % st.addr())
    # two limits at once; both have to hold and a refusal by the second must give back the first
    conf += 'if req.path =^ "/both/" { limit.con 4; limit.con_ip 2; proxy "%s"; }\n' % st.addr()
    conf += 'if req.path =^ "/bothr/" { limit.con_ip 2; limit.con 4; proxy "%s"; }\n' % st.addr()
    tab = fakeaddr.AddrTab(chk)     # the server sees the client addresses chosen here
    srv = server.Server(chk, conf, modules=["mod_limit", "mod_proxy"], workers=4, preload=tab.so, env=tab.env).start()
    seq = [0]

    def newid():
        with lock:
            seq[0] += 1
            return "h%d" % seq[0]

    ADDRS = ["127.0.0.1", "127.0.0.2", "127.0.0.3", "127.0.1.2", "127.0.0.130", "127.128.0.1", "127.64.0.1", "127.0.128.1", "127.255.255.254", "0.0.0.0", "255.255.255.255", "1.1.1.1", "128.0.0.0",
             # share their first 32 bits with the ipv4 ones, and prefixes of all lengths with each other
             "::1", "::", "7f00:1::", "7f00:1::1", "7f00:1:8000::", "7f00:1:8000::1", "7f00:1:0:0:8000::", "7f00:1::8000:0", "7f00:2::1", "ffff:ffff::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "2001:db8::1", "2001:db8::2",
             "2001:db8:0:1::2", "2001:db8:8000:1::2", "2001:db8:8000:1:8000::2"]

    def conn(addr):
        return tab.connect(srv.port, addr, timeout=60)

    STORM = ["127.0.0.1", "127.0.0.2", "7f00:1:8000::1", "127.0.0.3"]

    class Slot:
        def __init__(self, grp, addr, c=None):
            self.grp, self.addr = grp, addr
            self.rid = newid()
            self.h = Held()
            held[self.rid] = self.h
            self.c = c or conn(addr)
            self.c.send(http.build_request("GET", "/%s/%s/%s" % (grp, addr.replace(":", "_"), self.rid)))
            i = self.c._until(b"\r\n\r\n")
            if i < 0:
                raise http.Closed("closed instead of an answer to a limited request (%s)" % grp)
            self.status = int(bytes(self.c.buf[9:12]))

        def finish(self, how):
            """returns the connection if it can be used again"""
            if self.status != 200:
                r = self.c.read_response("GET")
                if not r.keepalive():
                    self.c.close()
                    return None
                return self.c
            if how == "ok":
                self.h.ev.set()
                r = self.c.read_response("GET")
                if r.body != b"first_last":
                    raise http.ProtoError("admitted request got body %r" % r.body)
                return self.c
            if how == "rst":
                self.c.rst()
                self.h.ev.set()
            elif how == "close":
                self.c.close()
                self.h.ev.set()
            elif how == "abort":
                self.h.mode = "close"
                self.h.ev.set()
                self.c.read_all()
                self.c.close()
            elif how == "late":
                self.c.rst()
                time.sleep(0.05)
                self.h.ev.set()
            return None

    def acquire(grp, addr, expect, refused, c=None, why=""):
        """acquire with the model's expectation; True = must (soon) be admitted, False = must be refused now"""
        t = time.time()
        n = 0
        while True:
            s = Slot(grp, addr, c)
            if s.status == 200:
                if not expect:
                    chk.violation("exceeded:%s" % grp.rstrip("0123456789"), "%s: a request from %s was admitted although the limit is in use (%s)" % (grp, addr, why), {"group": grp, "addr": addr})
                chk.ok(group=grp, admitted=True)
                return s
            if s.status != refused:
                chk.violation("answer:%s" % grp, "%s: refused request answered %d, configured is %d" % (grp, s.status, refused), {"group": grp})
                s.finish("x")
                return None
            c = s.finish("x")
            if not expect:
                chk.ok(group=grp, admitted=False)
                if c:
                    c.close()
                return None
            n += 1
            if time.time() - t > 20:
                chk.violation("leaked:%s" % grp.rstrip("0123456789"), "%s: request from %s refused for 20 s although only %s are in use" % (grp, addr, why), {"group": grp, "addr": addr})
                if c:
                    c.close()
                return None
            time.sleep(0.01 if n < 50 else 0.1)

    def model(item):
        grp, k = item
        r = chk.rng("model", grp, k)
        both = grp.startswith("both")
        kind, lim, refused = groups[grp] if not both else ("both", 4, 503)
        addrs = r.sample(ADDRS, r.choice([2, 4, 8, 12])) if kind != "con" else r.sample(ADDRS, 3)
        slots = []
        spare = []
        for step in range(chk.n(60)):
            if len(chk.violations) > 10:
                break
            per = collections.Counter(s.addr for s in slots)
            if slots and r.random() < (0.35 if len(slots) < 3 * lim else 0.6):
                s = slots.pop(r.randrange(len(slots)))
                c = s.finish(r.choice(["ok", "ok", "ok", "rst", "close", "abort", "late"]))
                if c and r.random() < 0.5:
                    spare.append((s.addr, c))
                elif c:
                    c.close()
                continue
            addr = r.choice(addrs)
            if kind == "con":
                exp = len(slots) < lim
            elif kind == "con_ip":
                exp = per[addr] < lim
            else:
                exp = len(slots) < 4 and per[addr] < 2
            c = None
            for j, (a, cc) in enumerate(spare):
                if a == addr:
                    c = cc
                    del spare[j]
                    break
            s = acquire(grp, addr, exp, refused, c, "%d held, %d by this address, limit %d" % (len(slots), per[addr], lim))
            if s is not None:
                slots.append(s)
        for s in slots:
            c = s.finish("ok")
            if c:
                c.close()
        for a, c in spare:
            c.close()

    def storm(item):
        """many concurrent short requests; the stub watches the number in progress (aborted requests may still be in progress there)"""
        grp, aborts = item
        both = grp.startswith("both")
        kind, lim, refused = groups[grp] if not both else ("both", 4, 503)
        with lock:
            for k in list(peak):
                if k == grp or (isinstance(k, tuple) and k[0] == grp):
                    peak[k] = 0
        cnt = collections.Counter()

        def client(j):
            r = chk.rng("storm", grp, j)
            c = None
            for q in range(chk.n(25)):
                addr = r.choice(STORM) if c is None else c.addr
                if c is None:
                    c = conn(addr)
                    c.addr = addr
                c.send(http.build_request("GET", "/%s/%s/s%d_%d" % (grp, addr.replace(":", "_"), j, q)))
                x = r.random()
                if aborts and x < 0.1:
                    c.rst()
                    c = None
                    continue
                try:
                    rsp = c.read_response("GET")
                except (http.Closed, http.ProtoError) as e:
                    chk.violation("storm:%s" % type(e).__name__, "%s: request not answered: %s" % (grp, e), {"group": grp})
                    return
                with lock:
                    cnt[rsp.status] += 1
                if rsp.status not in (200, refused):
                    chk.violation("answer:%s" % grp, "%s: answered %d" % (grp, rsp.status), {"group": grp})
                chk.ok(storm=grp, status=rsp.status)
                if not rsp.keepalive() or x > 0.9:
                    c.close()
                    c = None
            if c:
                c.close()
        ts = [threading.Thread(target=client, args=(j,), daemon=True) for j in range(24)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        with lock:
            pk = dict(peak)
        if not aborts and kind in ("con", "both") and pk.get(grp, 0) > lim:
            chk.violation("exceeded:storm", "%s: %d requests in progress at once, limit %d" % (grp, pk[grp], lim), {"group": grp, "answers": dict(cnt)})
        if not aborts and kind in ("con_ip", "both"):
            l2 = lim if kind == "con_ip" else 2
            for k, v in pk.items():
                if isinstance(k, tuple) and k[0] == grp and v > l2:
                    chk.violation("exceeded:storm", "%s: %d requests of %s in progress at once, limit %d" % (grp, v, k[1], l2), {"group": grp, "answers": dict(cnt)})
        chk.count("storm", "%s peak=%s 200=%d refused=%d" % (grp, pk.get(grp), cnt[200], cnt[refused]))
        # afterwards nothing may be in use, and nothing less than nothing
        got = []
        addrs = {"con": ["127.0.0.1"], "both": ["127.0.0.1", "7f00:1:8000::1"]}.get(kind, STORM)
        n = lim if kind != "both" else 2
        for a in addrs:
            for i in range(n):
                s = acquire(grp, a, True, refused, None, "%d of %d after all requests ended" % (len(got), lim))
                if s:
                    got.append(s)
        for a in addrs:
            for _ in range(3):
                s = acquire(grp, a, False, refused, None, "%d held after a burst" % len(got))
                if s:
                    got.append(s)
        for s in got:
            c = s.finish("ok")
            if c:
                c.close()

    def burst(item):
        grp, rnd = item
        kind, lim, refused = groups[grp]
        r = chk.rng("burst", grp, rnd)
        time.sleep(r.choice([2.6, 3.0]))
        addrs = r.sample(ADDRS, 1 if kind == "req" else 4)
        size = r.choice([lim, lim + 1, 2 * lim + 3])
        res = collections.Counter()
        cs = {a: [conn(a) for _ in range(min(size, 4))] for a in addrs}
        todo = [(a, j) for a in addrs for j in range(size)]
        r.shuffle(todo)
        tl = threading.Lock()
        t0 = time.monotonic()

        def w(ci):
            while True:
                with tl:
                    x = next((y for y in todo if y[1] % min(size, 4) == ci), None)
                    if x is None:
                        return
                    todo.remove(x)
                a, j = x
                c = cs[a][ci]
                c.send(http.build_request("GET", "/%s/%s/b%d_%d" % (grp, a.replace(":", "_"), rnd, j)))
                try:
                    rsp = c.read_response("GET")
                except (http.Closed, http.ProtoError) as e:
                    chk.violation("burst:%s" % type(e).__name__, "%s: request not answered: %s" % (grp, e), {"group": grp})
                    return
                with tl:
                    res[(a, rsp.status)] += 1
                if not rsp.keepalive():
                    c.close()
                    cs[a][ci] = conn(a)
        ts = [threading.Thread(target=w, args=(ci,), daemon=True) for ci in range(min(size, 4))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        T = time.monotonic() - t0
        windows = int(T + 0.5) + 1 + (1 if kind == "req" else 0)
        for a in addrs:
            for c in cs[a]:
                c.close()
            ok, no = res[(a, 200)], res[(a, refused)]
            if ok + no != size:
                chk.violation("answer:%s" % grp, "%s: %d requests answered %r" % (grp, size, dict(res)), {"group": grp})
            if ok > lim * windows:
                chk.violation("exceeded:rate:%s" % kind, "%s: %d of %d requests from %s admitted within %.2f s, limit %d/s" % (grp, ok, size, a, T, lim), {"group": grp, "addr": a, "time": T})
            if ok < min(lim, size):
                chk.violation("toofew:rate:%s" % kind, "%s: only %d of %d requests from %s admitted after > 2.5 s without requests, limit %d/s" % (grp, ok, size, a, lim), {"group": grp, "addr": a, "time": T})
            chk.ok(size, rate=grp, windows=windows, burst=("full" if size <= lim else "over"))

    items = []
    names = [g for g in groups if groups[g][0].startswith("con")] + ["both", "bothr"]
    rates = [g for g in groups if groups[g][0].startswith("req")]
    def bursts(g):
        for k in range(chk.n(5)):
            burst((g, k))
    # each limit context is driven by one sequence at a time
    bt = [threading.Thread(target=bursts, args=(g,), daemon=True) for g in rates]
    for t in bt:
        t.start()
    check.parallel(6, model, [(g, k) for k in range(1) for g in names])
    check.parallel(2, storm, [(g, False) for g in names])
    check.parallel(2, storm, [(g, True) for g in names])
    check.parallel(6, model, [(g, 100 + k) for k in range(1) for g in names])
    for t in bt:
        t.join(300)
    for e in st.errors:
        raise RuntimeError(e)
    srv.verify("end")
    # stop right after requests limited per second: their timers are still pending
    for g in rates:
        http.get(srv.port, "/%s/x/end" % g)
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P24", rule="one evaluation = one limited request whose admission or refusal was compared with an exact model of the limit (held requests, storms, bursts); distinct = limit contexts x outcomes")
    check.run(c, run, min_evals=2500)
