"""P23: shutdown and restart lose no request in progress"""
import os
import random
import re
import signal
import socket
import ssl
import subprocess
import threading
import time

from vf import backends, build, check, http, server

CA = os.path.join(build.REPO, "tests/ca")
BIG = 8000000


def pattern(n):
    return (b"0123456789abcdefghijklmnopqrstuvwxyz\n" * (n // 37 + 1))[:n]


BODY = pattern(BIG)


class Backend:
    def __init__(self, chk):
        def handler(kind):
            def h(rec):
                t = rec.target if kind == "proxy" else rec.env.get(b"REQUEST_URI", b"")
                what = t.rsplit(b"/", 1)[-1].decode()

                def head(n=None):
                    o = b"HTTP/1.1 200 OK\r\n" if kind == "proxy" else b"Status: 200 OK\r\n"
                    return o + (b"Content-Length: %d\r\n" % n if n is not None else b"") + b"Content-Type: text/plain\r\n\r\n"
                end = [("end",)] if kind == "fastcgi" else [("close",)]
                if what == "stream":
                    a = [("send", head(None))]
                    for i in range(8):
                        a += [("send", b"s%d" % i * 1000), ("sleep", 0.25)]
                    return a + end
                if what == "wait":
                    return [("sleep", 1.6), ("send", head(2) + b"ok")] + end
                if what == "hang":
                    return [("hang", 60)]
                b = b"%d" % len(rec.body or b"")
                return [("send", head(len(b)) + b)] + end
            return h
        self.stubs = {k: cls(handler(k), backlog=1024) for k, cls in backends.KINDS.items()}
        for s in self.stubs.values():
            chk.cleanup(s.stop)


STREAM = b"".join(b"s%d" % i * 1000 for i in range(8))
MODS = ["mod_proxy", "mod_fastcgi", "mod_scgi", "mod_deflate", "mod_throttle", "mod_openssl", "mod_gnutls", "mod_accesslog", "mod_status", "mod_lua"]


def conf(d, be):
    c = """
docroot "@D@";
if req.path =^ "/proxy/" { proxy "@P@"; }
else if req.path =^ "/nb/proxy/" { buffer_request_body false; proxy "@P@"; }
else if req.path =^ "/fastcgi/" { fastcgi "@F@"; }
else if req.path =^ "/scgi/" { scgi "@S@"; }
else if req.path =^ "/thr/" { io.throttle 120kbyte; alias "/thr/" => "@D@/"; }
else if req.path =^ "/z/" { alias "/z/" => "@D@/"; static; deflate; }
else if req.path == "/status" { status.info; }
static;
"""
    for k, v in (("@D@", d), ("@P@", be.stubs["proxy"].addr()), ("@F@", be.stubs["fastcgi"].addr()), ("@S@", be.stubs["scgi"].addr())):
        c = c.replace(k, v)
    return c


class Client(threading.Thread):
    """one request in progress while the server is told to stop"""

    def __init__(self, port, tls, kind, r, go):
        super().__init__(daemon=True)
        self.port, self.tls, self.kind, self.r, self.go = port, tls, kind, r, go
        self.ready = threading.Event()
        self.result = None
        self.end = None

    def conn(self, rcvbuf=None):
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(40)
        s.connect(("127.0.0.1", self.port if not self.tls else self.tls))
        if self.tls:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
            s = ctx.wrap_socket(s, server_hostname="test1.ssl")
        return http.Conn(sock=s, timeout=40)

    def run(self):
        try:
            self.result = self.work()
        except http.Closed as ex:
            self.result = "connection lost: %s" % ex
        except (http.Timeout, OSError) as ex:
            self.result = "%s: %s" % (type(ex).__name__, ex)
        except http.ProtoError as ex:
            self.result = "broken response: %s" % ex
        self.end = time.time()
        self.ready.set()

    def expect(self, c, method, body, got=b""):
        rsp = c.read_response(method)
        if rsp.status != 200:
            return "status %d" % rsp.status
        if rsp.body != body:
            return "wrong body: %d bytes instead of %d" % (len(rsp.body), len(body))
        return None

    def work(self):
        k, r = self.kind, self.r
        be = r.choice(["proxy", "fastcgi", "scgi"])
        if k == "big":
            c = self.conn(65536)
            c.send(http.build_request("GET", "/big.bin"))
            head = c._until(b"\r\n\r\n")
            self.ready.set()
            self.go.wait(30)
            d = len(c.buf) - (head if isinstance(head, int) else 0)
            # read on slowly
            for _ in range(r.randrange(3, 8)):
                time.sleep(r.uniform(0.05, 0.4))
                c.fill()
            return self.expect(c, "GET", BODY)
        if k == "buffered":
            c = self.conn(4096)
            c.send(http.build_request("GET", "/mid.bin"))
            time.sleep(0.15)
            self.ready.set()
            self.go.wait(30)
            time.sleep(r.uniform(0.5, 2.0))
            return self.expect(c, "GET", BODY[:600000])
        if k == "stream":
            c = self.conn()
            c.send(http.build_request("GET", "/%s/stream" % be))
            c.fill()
            self.ready.set()
            return self.expect(c, "GET", STREAM)
        if k == "wait":
            c = self.conn()
            m = r.choice(["GET", "POST"])
            c.send(http.build_request(m, "/%s/wait" % be, body=b"x" * 5000 if m == "POST" else None))
            time.sleep(0.15)
            self.ready.set()
            return self.expect(c, m, b"ok")
        if k == "upload":
            c = self.conn()
            n = r.randrange(5, 12)
            c.send(http.build_request("POST", r.choice(["", "/nb"]) + "/proxy/up", [("Content-Length", str(n * 20000))]))
            c.send(b"u" * 20000)
            time.sleep(0.15)
            self.ready.set()
            for _ in range(n - 1):
                time.sleep(r.uniform(0.05, 0.4))
                c.send(b"u" * 20000)
            return self.expect(c, "POST", b"%d" % (n * 20000))
        if k == "throttled":
            c = self.conn()
            c.send(http.build_request("GET", "/thr/mid.bin"))
            c.fill()
            self.ready.set()
            return self.expect(c, "GET", BODY[:600000])
        if k == "deflate":
            c = self.conn(4096)
            c.send(http.build_request("GET", "/z/big.bin", [("Accept-Encoding", "gzip")]))
            c.fill()
            self.ready.set()
            self.go.wait(30)
            import gzip
            rsp = c.read_response("GET")
            return None if gzip.decompress(rsp.body) == BODY else "wrong body"
        if k == "idle":
            c = self.conn()
            c.send(http.build_request("GET", "/a.txt"))
            c.read_response("GET")
            self.ready.set()
            self.go.wait(30)
            t = time.time()
            if c.fill():
                return "unexpected data"
            return None if time.time() - t < 8 else "idle connection closed only after %.1f s" % (time.time() - t)
        # the following may be cut off
        if k in ("stalled", "halfheader", "hang", "halfbody"):
            c = self.conn(4096)
            c.send({"stalled": http.build_request("GET", "/big.bin"), "halfheader": b"GET /a.txt HTTP/1.1\r\nHo", "hang": http.build_request("GET", "/%s/hang" % be),
                    "halfbody": http.build_request("POST", "/%s/up" % be, [("Content-Length", "100000")]) + b"x" * 50000}[k])
            time.sleep(0.1)
            self.ready.set()
            self.go.wait(30)
            time.sleep(5)
            c.close()
            return None
        if k == "aborter":
            self.ready.set()
            t = time.time()
            while time.time() - t < 2.5:
                try:
                    c = self.conn(4096)
                    c.send(http.build_request("GET", r.choice(["/big.bin", "/%s/stream" % be, "/a.txt", "/status"])))
                    time.sleep(r.uniform(0, 0.03))
                    (c.rst if r.random() < 0.5 else c.close)()
                except (OSError, http.Closed):
                    time.sleep(0.02)
            return None
        raise AssertionError(k)


KINDS = ["big", "buffered", "stream", "wait", "upload", "throttled", "deflate", "idle"]
CUT = ["stalled", "halfheader", "hang", "halfbody", "aborter"]


class Angel(server.Server):
    def __init__(self, chk, config, mods, extra="", **kw):
        super().__init__(chk, config, modules=mods, **kw)
        self.aconf = os.path.join(self.dir, "angel.conf")
        names = sorted(self.env)
        with open(self.aconf, "w") as f:
            f.write('binary "%s";\nconfig "%s";\nmodules_path "%s";\nallow_listen [ "127.0.0.1:%d" ];\ncopy_env [ %s ];\n%s\n' % (
                build.worker_bin(self.variant), self.conf, build.module_dir(self.variant), self.port, ", ".join('"%s"' % n for n in names), extra))

    def argv(self):
        return [build.angel_bin(self.variant), "-m", build.module_dir(self.variant), "-c", self.aconf] + (["--module-resident"] if self.leaks else [])

    def workers(self):
        p = self.proc.pid
        try:
            return [int(x) for x in open("/proc/%d/task/%d/children" % (p, p)).read().split()]
        except OSError:
            return []


def alive(pid):
    try:
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def run(chk):
    build.build("asan")
    be = Backend(chk)
    d = chk.scratch + "/doc"
    os.makedirs(d)
    for n, b in (("a.txt", b"hello\n"), ("big.bin", BODY), ("mid.bin", BODY[:600000])):
        with open(os.path.join(d, n), "wb") as f:
            f.write(b)
    cf = conf(d, be)

    # ---- one worker process told to stop
    def stop(i, attempt=0):
        r = chk.rng("stop", i)
        mode = r.choice(["clean", "clean", "mixed", "mixed", "double"])
        sig = r.choice([signal.SIGINT, signal.SIGTERM])
        tls, tls2 = server.free_port(), server.free_port()
        kinds = [r.choice(KINDS) for _ in range(r.randrange(3, 9))]
        if mode != "clean":
            kinds += [r.choice(CUT) for _ in range(r.randrange(1, 5))]
        trans = [r.choice([0, 0, 0, tls, tls2]) for _ in kinds]
        # the TLS close alert of a throttled connection is queued behind the throttle; when the process ends
        # before its turn the stream is still allocated: not memory lost while running
        leaks = not any(k == "throttled" and t for k, t in zip(kinds, trans))
        s = server.Server(chk, cf, setup="""io.timeout 30;
openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "ca-file" => "%s/intermediate.crt" ];
gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem" ];
accesslog "@DIR@/acc.log";""" % (tls, CA, CA, tls2, CA), modules=MODS, workers=r.choice([1, 2, 4]), leaks=leaks, name="stop%d" % i)
        s.start().wait_port(tls).wait_port(tls2)
        go = threading.Event()
        cls = []
        for j, (k, t) in enumerate(zip(kinds, trans)):
            cls.append(Client(s.port, t, k, chk.rng("stopc", i, j), go))
            cls[-1].tname = {0: "plain", tls: "openssl", tls2: "gnutls"}[t]
            cls[-1].start()
        for c in cls:
            c.ready.wait(20)
        time.sleep(r.uniform(0, 0.2))
        t0 = time.time()
        s.signal(sig)
        go.set()
        if mode == "double":
            time.sleep(r.uniform(0.05, 0.6))
            s.signal(sig)
            try:
                s.proc.wait(15)
            except subprocess.TimeoutExpired:
                return ("double", "process still there 15 s after the second signal", {"kinds": kinds})
        else:
            # nothing new is accepted
            time.sleep(1.0)
            if s.alive():
                try:
                    q = socket.create_connection(("127.0.0.1", s.port), timeout=5)
                    q.settimeout(3)
                    q.sendall(http.build_request("GET", "/a.txt"))
                    got = b""
                    try:
                        got = q.recv(100)
                    except OSError:
                        pass
                    q.close()
                    if got:
                        return ("accepts", "a request sent 1 s after the stop signal was answered", {"answer": got})
                except OSError:
                    pass
            for c in cls:
                c.join(60)
            last = max(c.end or time.time() for c in cls)
            try:
                s.proc.wait(max(1, last + 25 - time.time()))
            except subprocess.TimeoutExpired:
                tb = subprocess.run(["gdb", "-p", str(s.proc.pid), "-batch", "-ex", "thread apply all bt 6"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode("latin-1")[-3000:]
                s.kill()
                return ("hang", "process did not exit within 25 s after the last request (%s)" % kinds, {"kinds": kinds, "stacks": tb})
        rc = s.proc.returncode
        s.stopped = True
        if mode != "double":    # the second signal aborts the process
            s.verify("stop %s" % mode, expect_alive=False)
        if rc != 0 and not s.san_reports() and mode != "double":
            return ("exit", "exit code %s after a graceful stop (%s): %s" % (rc, kinds, s.logs()[-800:]), {"kinds": kinds})
        if mode != "double":
            for c in cls:
                if c.kind in KINDS:
                    if c.result is not None:
                        return ("lost:" + c.kind, "request in progress (%s, %s) not finished after the stop signal: %s" % (c.kind, c.tname, c.result), {"kinds": kinds, "mode": mode})
                    chk.ok(stop="%s/%s" % (c.kind, c.tname))
            done = len([c for c in cls if c.kind in KINDS])
            with open(os.path.join(s.dir, "acc.log"), "rb") as f:
                lines = f.read().count(b" 200 ")
            if lines < done:
                return ("log", "%d requests answered with 200 around the stop, only %d entries in the access log" % (done, lines), {"kinds": kinds})
            if "unclosed connections" in s.logs():
                return ("unclosed", "server reports unclosed connections at exit", {"kinds": kinds})
        chk.ok(mode=mode, signal=int(sig), exit_seconds="%d" % (time.time() - t0))
        return None

    # ---- told to stop while starting
    def early(i, attempt=0):
        r = chk.rng("early", i)
        s = server.Server(chk, cf, setup="accesslog \"@DIR@/acc.log\";", modules=MODS, workers=r.choice([1, 4]), name="early%d" % i)
        lim = 0.6
        s.stderr = open(os.path.join(s.dir, "stderr.log"), "wb")
        s.proc = subprocess.Popen(s.argv(), stdin=subprocess.DEVNULL, stdout=s.stderr, stderr=s.stderr, env=s.env, cwd=s.dir, start_new_session=True)
        chk.cleanup(s.kill)
        time.sleep(r.uniform(0.02, lim))
        s.signal(signal.SIGINT)
        try:
            rc = s.proc.wait(20)
        except subprocess.TimeoutExpired:
            s.kill()
            return ("early-hang", "SIGINT while starting: process still running after 20 s", {})
        s.stopped = True
        s.verify("early", expect_alive=False)
        if rc not in (0, -signal.SIGINT) and not s.san_reports():
            return ("early-exit", "SIGINT while starting: exit code %s: %s" % (rc, s.logs()[-500:]), {})
        chk.ok(early_rc=str(rc))
        return None

    # ---- supervisor
    def angel(i, attempt=0):
        r = chk.rng("angel", i)
        a = Angel(chk, cf, MODS, workers=r.choice([1, 3]), leaks=True, setup="io.timeout 30;", name="angel%d" % i)
        a.start()
        stopf = threading.Event()
        lost = []
        n = [0]
        lk = threading.Lock()
        phase = ["start"]

        def load(j):
            q = chk.rng("angel-load", i, j)
            while not stopf.is_set():
                t0 = time.time()
                ph = phase[0]
                what = q.choice(["/a.txt", "/a.txt", "/mid.bin", "/proxy/x", "/fastcgi/wait", "/scgi/stream"])
                res = None
                try:
                    s = socket.socket()
                    s.settimeout(30)
                    s.connect(("127.0.0.1", a.port))
                    c = http.Conn(sock=s, timeout=30)
                    try:
                        c.send(http.build_request("GET", what, [("Connection", "close")]))
                        rsp = c.read_response("GET")
                        exp = {"/a.txt": b"hello\n", "/mid.bin": BODY[:600000], "/proxy/x": b"0", "/fastcgi/wait": b"ok", "/scgi/stream": STREAM}[what]
                        if rsp.status != 200 or rsp.body != exp:
                            res = "status %d, %d bytes" % (rsp.status, len(rsp.body))
                    finally:
                        c.close()
                except ConnectionRefusedError:
                    res = "refused"
                except http.Timeout as ex:
                    res = "timeout"
                except (http.Closed, OSError, http.ProtoError) as ex:
                    res = "lost: %s" % ex
                with lk:
                    n[0] += 1
                    if res is not None:
                        lost.append((t0, time.time(), ph, phase[0], what, res))
                time.sleep(q.uniform(0, 0.02))
        th = [threading.Thread(target=load, args=(j,), daemon=True) for j in range(6)]
        for t in th:
            t.start()

        def new_worker(old, limit=25):
            t = time.time()
            while time.time() - t < limit:
                w = a.workers()
                if len(w) == 1 and w[0] != old:
                    return w[0]
                time.sleep(0.02)
            return None
        steps = []
        crash_windows = []
        try:
            time.sleep(0.5)
            for _ in range(r.randrange(2, 4)):
                w = a.workers()
                if len(w) != 1:
                    return ("workers", "supervisor has %r workers" % w, {"steps": steps})
                st = r.choice(["kill", "hup", "hup", "hup-kill-new", "hup-kill-old", "hup-hup"])
                steps.append(st)
                phase[0] = st
                t0 = time.time()
                if st == "kill":
                    os.kill(w[0], r.choice([signal.SIGKILL, signal.SIGUSR2]))
                else:
                    os.kill(a.proc.pid, signal.SIGHUP)
                    if st == "hup-hup":
                        time.sleep(r.uniform(0, 0.5))
                        os.kill(a.proc.pid, signal.SIGHUP)
                    elif st in ("hup-kill-new", "hup-kill-old"):
                        t = time.time()
                        while time.time() - t < 10 and len(a.workers()) < 2:
                            time.sleep(0.005)
                        ws = a.workers()
                        time.sleep(r.uniform(0, 0.6))
                        if st == "hup-kill-old":
                            victims = w
                        else:
                            victims = [x for x in ws if x != w[0]]
                        for v in victims:
                            try:
                                os.kill(v, signal.SIGKILL)
                            except OSError:
                                pass
                if st == "hup-kill-new":
                    # whoever wins, one worker has to go on serving
                    time.sleep(3.0)
                    t = time.time()
                    while time.time() - t < 20 and len(a.workers()) != 1:
                        time.sleep(0.05)
                    nw = a.workers()[0] if len(a.workers()) == 1 else None
                else:
                    nw = new_worker(w[0])
                if nw is None:
                    if not a.alive():
                        return ("supervisor", "supervisor died after %s: %s" % (st, a.logs()[-600:]), {"steps": steps})
                    return ("replace", "%s: no new worker process within 25 s (%r)" % (st, a.workers()), {"steps": steps, "log": a.logs()[-3000:]})
                # it serves
                t = time.time()
                okk = False
                while time.time() - t < 20:
                    try:
                        if http.get(a.port, "/a.txt", timeout=10).status == 200:
                            okk = True
                            break
                    except (http.Closed, http.Timeout, OSError):
                        time.sleep(0.05)
                if not okk:
                    return ("replace", "%s: new worker %r does not serve" % (st, nw), {"steps": steps, "log": a.logs()[-3000:]})
                if "kill" in st:
                    crash_windows.append((t0 - 0.01, time.time() + 0.5))
                time.sleep(r.uniform(0.2, 1.0))
            # stop the supervisor
            mode = r.choice(["plain", "plain", "hup"])
            steps.append("stop-" + mode)
            w = a.workers()
            if mode == "hup":
                os.kill(a.proc.pid, signal.SIGHUP)
                time.sleep(r.uniform(0, 0.8))
                w = list(set(w) | set(a.workers()))
            stopf.set()
            for t in th:
                t.join(40)
            cl = Client(a.port, 0, "stream", r, threading.Event())
            if mode == "plain":
                cl.start()
                cl.ready.wait(10)
            w = list(set(w) | set(a.workers()))
            os.kill(a.proc.pid, r.choice([signal.SIGINT, signal.SIGTERM]))
            try:
                rc = a.proc.wait(30)
            except subprocess.TimeoutExpired:
                return ("stop-hang", "supervisor still running 30 s after the stop signal (%s), workers %r" % (mode, a.workers()), {"steps": steps, "log": a.logs()[-3000:]})
            a.stopped = True
            if rc != 0 and not a.san_reports():
                return ("stop-exit", "supervisor exit code %d" % rc, {"steps": steps, "log": a.logs()[-3000:]})
            t = time.time()
            while time.time() - t < 20 and any(alive(x) for x in w):
                time.sleep(0.05)
            left = [x for x in w if alive(x)]
            if left:
                for x in left:
                    os.kill(x, signal.SIGKILL)
                return ("stop-left", "worker %r still running 20 s after the supervisor was stopped" % left, {"steps": steps, "log": a.logs()[-3000:]})
            if mode == "plain":
                cl.join(30)
                if cl.result is not None:
                    return ("lost:angel-stop", "streamed response not finished when the supervisor was stopped: %s" % cl.result, {"steps": steps})
            for t0, t1, p0, p1, what, res in lost:
                if res == "refused":
                    return ("refused", "connection refused during %s/%s although the supervisor keeps the sockets open" % (p0, p1), {"steps": steps})
                if not any(t0 <= b and t1 >= x for x, b in crash_windows):
                    return ("lost:restart", "request %s lost during %s/%s: %s" % (what, p0, p1, res), {"steps": steps, "log": a.logs()[-3000:]})
            a.verify("end", expect_alive=False)
            for m in re.findall(r"died with (?:exit status|unexpected)[^\n]*", a.logs()):
                if not a.san_reports():
                    return ("worker-exit", "a worker told to stop did not exit with success: " + m, {"steps": steps, "log": a.logs()[-3000:]})
            chk.ok(n[0], steps=",".join(steps))
            for st in steps:
                chk.count("angel_step", st)
            return None
        finally:
            stopf.set()
            for x in a.workers() if a.alive() else []:
                pass
            if a.alive():
                ws = a.workers()
                a.kill()
                for x in ws:
                    try:
                        os.kill(x, signal.SIGKILL)
                    except OSError:
                        pass

    F = {"stop": stop, "early": early, "angel": angel}

    def one(it):
        f, i = it
        v = F[f](i)
        if v is not None:
            chk.count("retried", v[0])
            v2 = F[f](i, 1)
            if v2 is not None and v2[0].split(":")[0] == v[0].split(":")[0]:
                chk.violation(v2[0], v2[1], v2[2])
            elif v2 is not None:
                chk.violation(v[0], v[1] + " / then: " + v2[1], v[2])
            else:
                chk.inconcl("%s %s: %s" % (f, v[0], v[1]))
    items = [("stop", i) for i in range(chk.n(14, 120))] + [("angel", i) for i in range(chk.n(10, 80))] + [("early", i) for i in range(chk.n(60, 600))]
    if chk.args.only:
        items = [x for x in items if x[0] in chk.args.only.split(",")]
    items.sort(key=lambda x: (x[1], x[0]))
    check.parallel(10, one, items)


if __name__ == "__main__":
    c = check.Check("P23", rule="one evaluation = one request in progress during a stop or restart, one start interrupted, or one whole stop/restart history; distinct = kinds of request x transport, histories")
    check.run(c, run, min_evals=200)
