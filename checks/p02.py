"""P02: worker threads never race on shared state"""
import json
import os
import re
import shutil
import signal
import socket
import ssl
import subprocess
import threading
import time

from checks import p01
from vf import backends, build, check, http, memc, server

OURS = re.compile(r"(?:src|include)/(?:main|common|modules|angel|lighttpd)/")


def preload():
    out = os.path.join(build.BUILD, "tsanglib.so")
    src = os.path.join(build.VERIF, "vf", "tsanglib.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        pk = subprocess.run(["pkg-config", "--cflags", "glib-2.0"], stdout=subprocess.PIPE, check=True).stdout.decode().split()
        tmp = "%s.%d" % (out, os.getpid())
        r = subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-w", "-o", tmp, src] + pk + ["-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise build.BuildError(r.stdout.decode("utf-8", "replace"))
        os.rename(tmp, out)
    return out


def stacks(txt):
    """the accesses of one report: [(what, [frames])]; frames: (function, place, is ours)"""
    res = []
    for para in re.split(r"\n\s*\n", txt):
        m = re.search(r"(?m)^  (?:\[failed[^\n]*|((?:Previous |Concurrent )?(?:atomic )?(?:[Ww]rite|[Rr]ead) of size \d+)[^\n]*)", para)
        if not m or not m.group(1):
            continue
        fr = [(a, b, bool(OURS.search(b))) for a, b in re.findall(r"(?m)^    #\d+ (\S+) ([^\n]*)", para)]
        res.append((m.group(1), fr, "failed to restore the stack" in para))
    return res


def judge(chk, srv, ctx):
    """every report where both accesses happen on behalf of server code is a race"""
    n = 0
    for _, txt in srv.san_reports():
        if "ThreadSanitizer" not in txt:
            continue
        kind = re.search(r"ThreadSanitizer: ([^\n(]*)", txt).group(1).strip()
        if kind.startswith(("signal-unsafe", "thread leak")):
            chk.count("ignored_reports", kind)
            continue
        st = stacks(txt)
        tops = []
        for what, fr, lost in st:
            o = [f for f in fr if f[2]]
            tops.append(o[0][0] if o else None)
        if len([t for t in tops if t]) < 2 and "race" in kind:
            chk.count("ignored_reports", "only one side in the server: %s" % (tops,))
            continue
        chk.violation("race:%s:%s" % (kind, "/".join(sorted({t for t in tops if t}))), "%s (%s): %s" % (kind, ctx, txt[:3000]), {"report": txt[:14000]})
        n += 1
    return n


def last_words(srv):
    """assertion messages and the end of what the server wrote to stderr"""
    t = open(os.path.join(srv.dir, "stderr.log"), "rb").read().decode("latin-1")
    return " | ".join(re.findall(r"[^\n]*(?:ssert|CRITICAL|ERROR|abort)[^\n]*", t)[-4:])[:1500] + " ... " + t[-1000:]


PATHS = ["/probe", "/list/", "/z/big.txt", "/z/a.txt", "/flv/v.flv?start=10", "/auth/a.txt", "/dig/a.txt", "/acc/a.txt", "/redir/x/y", "/rw/1/2", "/rwr/a.txt", "/proxy/x", "/fcgi/x", "/scgi/x",
         "/bal/x", "/bal/y", "/sqf/x", "/mem/a.txt", "/mst/a.txt", "/cache/x", "/etagc/x", "/limit/x", "/thr/a.txt", "/pool/big.bin", "/prog/x", "/progress?progress_id=abc", "/status", "/status?format=plain",
         "/status?mode=runtime", "/dbg", "/exp/a.txt", "/~bob/a.txt", "/fortune", "/fortune/h", "/lua/x?y", "/luaf/a.txt", "/luain/x", "/luamem/x", "/xs/x", "/wsgi/x", "/html/page.html", "/secd/x/y/a.txt", "/up/x",
         "/upn/x", "/upnf/x", "/prof", "/pi/a.txt/x", "/pat/a?b", "/cond/x", "/async/a.txt", "/err/x", "/a.txt", "/big.bin", "/none", "/sub/", "/idx.html", "/sub"]


def load(chk, srv, name, seconds, threads, tls=()):
    """ordinary concurrent clients: the same few resources from all workers at once"""
    end = time.time() + seconds
    done = [0] * threads

    def run(i):
        r = chk.rng("load", name, i)
        c = None
        while time.time() < end and srv.alive():
            try:
                if c is None:
                    c = http.Conn(port=srv.port, src="127.%d.0.%d" % (r.randrange(2), r.randrange(1, 9)), timeout=5)
                t = r.choice(PATHS)
                hd = [("Authorization", "Basic dXNlcjpwYXNz")] if t.startswith(("/auth", "/dig")) else []
                if r.random() < 0.2:
                    hd.append(("Accept-Encoding", "gzip"))
                if t.startswith("/prog/"):
                    t += "?X-Progress-ID=abc"
                m, body = "GET", None
                if t.startswith(("/up", "/prog/", "/proxy", "/luain", "/fcgi", "/scgi")) and r.random() < 0.6:
                    m, body = "POST", b"b" * r.choice([0, 10, 5000, 70000, 300000])
                k = r.random()
                if k < 0.12:
                    # several requests at once
                    c.send(http.build_request("GET", "/probe") * r.randrange(2, 6))
                    c.close()
                    c = None
                    continue
                c.send(http.build_request(m, t, hd, body, host=r.choice(["vh1.example", "vh2.example", "x.wild.example", "other"])))
                if k < 0.2:
                    (c.rst if r.random() < 0.5 else c.close)()
                    c = None
                    continue
                resp = c.read_response(m)
                done[i] += 1
                chk.count("status", resp.status)
                if not resp.keepalive() or r.random() < 0.1:
                    c.close()
                    c = None
            except (OSError, http.Closed, http.Timeout, http.ProtoError):
                try:
                    if c:
                        c.close()
                except OSError:
                    pass
                c = None
        if c:
            try:
                c.close()
            except OSError:
                pass

    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(threads)]
    for t in ts:
        t.start()
    return ts, done


def world(chk, name, workers, seconds, fuzzers, stop_under_load, extra=""):
    d = os.path.join(chk.scratch, "%s-www" % name, "www")
    p01.setup_dir(d)
    be = p01.py(["backend", "%s/%s" % (chk.seed, name), os.path.join(chk.scratch, name + ".bdump")], chk.scratch, name + "-be")
    chk.cleanup(lambda: p01.kill(be))
    ports = be.stdout.readline().split()
    op, gp = server.free_port(), server.free_port()
    conf = extra + p01.CONF
    setup = """
	io.timeout 3;
	keepalive.timeout 2;
	stat_cache.ttl 1;
	openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "ca-file" => "%s/intermediate.crt" ];
	gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem" ];
	accesslog "@DIR@/access.log";
	log [ default => "file:@DIR@/error.log" ];
	fortune.load "@D@/fortunes";
	lua.plugin "%s/contrib/core.lua";
	lua.plugin "%s/contrib/secdownload.lua";
""" % (op, p01.CA, p01.CA, gp, p01.CA, build.REPO, build.REPO)
    sub = (("@D@", d), ("@P@", "127.0.0.1:" + ports[0].decode()), ("@F@", "127.0.0.1:" + ports[1].decode()), ("@S@", "127.0.0.1:" + ports[2].decode()),
           ("@M@", "127.0.0.1:" + ports[3].decode()), ("@DOWN@", "127.0.0.1:%d" % server.free_port()))
    for k, v in sub:
        conf, setup = conf.replace(k, v), setup.replace(k, v)
    srv = server.Server(chk, conf, setup=setup, modules=p01.MODS, workers=workers, name=name, variant="tsan", preload=preload())
    os.makedirs(srv.dir + "/cache")
    for n, t in (("h.lua", p01.LUA), ("fout.lua", p01.LUAF % "out"), ("fin.lua", p01.LUAF % "in"), ("mem.lua", p01.LUAMEM)):
        for k, v in sub:
            t = t.replace(k, v)
        open(os.path.join(srv.dir, n), "w").write(t)
    srv.start()
    srv.wait_port(op)
    srv.wait_port(gp)
    ts, done = load(chk, srv, name, seconds, 16)
    cl = [p01.py(["client", "%s/%s/%d" % (chk.seed, name, i), 10 ** 6, seconds, 6, os.path.join(chk.scratch, "%s-c%d.dump" % (name, i)), "%d:%d:%d" % (srv.port, op, gp)], chk.scratch, "%s-c%d" % (name, i))
          for i in range(fuzzers)]
    for p in cl:
        chk.cleanup(lambda p=p: p01.kill(p))
    if stop_under_load:
        time.sleep(seconds * 0.6)
    else:
        for t in ts:
            t.join(seconds + 20)
    sess = 0
    if stop_under_load:
        srv.signal(signal.SIGINT)
        time.sleep(0.5)
    for p in cl:
        try:
            out, _ = p.communicate(timeout=seconds + 60)
            sess += json.loads(out).get("sessions", 0)
        except (subprocess.TimeoutExpired, ValueError):
            p01.kill(p)
    died = not srv.alive() and not stop_under_load
    if died:
        chk.violation("died:" + name, "server died under concurrent load (rc %s): %s" % (srv.proc.returncode, last_words(srv)), {"log": srv.logs()[-4000:]})
    try:
        if not stop_under_load:
            srv.signal(signal.SIGINT)
        srv.proc.wait(90)
        if srv.proc.returncode not in (0, None) and not died:
            chk.violation("exit:" + name, "server exited with %s: %s" % (srv.proc.returncode, last_words(srv)), {"log": srv.logs()[-4000:]})
    except subprocess.TimeoutExpired:
        chk.inconcl("%s did not stop within 90 s under ThreadSanitizer" % name)
        srv.kill()
    p01.kill(be)
    judge(chk, srv, name)
    srv.reported = True
    chk.ok(sum(done), config=name, answered="ordinary")
    chk.ok(sess, config=name, answered="fuzzed")
    chk.count("answered", name, sum(done))
    chk.count("fuzz_sessions", name, sess)


HOT = """
keepalive.requests 100000;
progress.track;
if req.path =^ "/lim" { limit.con 1000000; limit.con_ip 1000000; limit.req 1000000; limit.req_ip 1000000; respond 200 => "x"; }
else if req.path =^ "/auth" { auth.plain ["method" => "basic", "realm" => "r", "file" => "@D@/users", "ttl" => 1]; respond 200 => "x"; }
else if req.path =^ "/ht" { auth.htpasswd ["method" => "basic", "realm" => "r", "file" => "@D@/htpasswd", "ttl" => 1]; respond 200 => "x"; }
else if req.path =^ "/pool" { io.throttle_pool 200mbyte; io.throttle_ip 100mbyte; static; }
else if req.path =^ "/rr" { balance.rr ({ proxy "@P@"; }, { proxy "@DOWN@"; }, { proxy "@P@"; }); }
else if req.path =^ "/sqf" { balance.sqf ({ fastcgi "@F@"; }, { fastcgi "@F@"; }); }
else if req.path =^ "/prx" { proxy "@P@"; }
else if req.path =^ "/prog" { progress.show; }
else if req.path =^ "/status" { status.info; }
else if req.path =^ "/mem" { memcached.lookup (["server" => "@M@"], { header.add "X-Hit" => "1"; }, { respond 200 => "x"; memcached.store ["server" => "@M@"]; }); }
else if req.path =^ "/cache" { docroot "@D@"; alias "/cache" => "@D@"; static; deflate; cache.disk.etag "@DIR@/cache"; }
else if req.path =^ "/for" { fortune.header; respond 200 => "x"; }
else if req.path =^ "/lua" { lua.handler "@DIR@/h.lua"; }
else if req.path =^ "/dir" { alias "/dir" => "@D@"; dirlist; }
else if req.path =^ "/red" { redirect "/x%{req.path}"; }
else if req.path =^ "/vh" { vhost.map ["a" => { respond 200 => "a"; }, default => { respond 200 => "b"; }]; }
else { alias "/f" => "@D@"; static; }
"""

HOTPATHS = ["/lim", "/auth", "/ht", "/pool/a.txt", "/rr", "/sqf", "/prx", "/prog?progress_id=1", "/status", "/status?format=plain", "/mem/x", "/cache/a.txt", "/for", "/lua", "/dir/", "/red", "/vh", "/f/a.txt"]


def hot(chk, name, workers, seconds):
    """bursts of the same small request on all workers at once: the accesses to the state shared for it overlap"""
    d = os.path.join(chk.scratch, "%s-www" % name, "www")
    p01.setup_dir(d)
    ht = backends.HttpStub(lambda rec: [("send", b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx")], backlog=1024)
    fc = backends.FcgiStub(lambda rec: [("send", b"Status: 200\r\nContent-Length: 1\r\n\r\nx"), ("end",)], backlog=1024)
    mc = memc.Memc(chk.seed)
    for x in (ht, fc, mc):
        chk.cleanup(x.stop)
    ports = [b"%d" % ht.port, b"%d" % fc.port, b"%d" % ht.port, b"%d" % mc.port]
    op, gp = server.free_port(), server.free_port()
    conf = HOT
    sni = os.path.join(chk.scratch, name + "-sni")
    os.makedirs(sni)
    for n in ("test1.ssl", "test2.ssl"):
        shutil.copy("%s/server_%s.pem" % (p01.CA, n), sni + "/x_%s.pem" % n)
    setup = """
	io.timeout 5;
	stat_cache.ttl 1;
	fetch.files_static "sni" => "@SNI@/x_*.pem";
	openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem" ];
	gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "session-db-size" => 16, "sni-backend" => "sni" ];
	accesslog "@DIR@/access.log";
	log [ default => "file:@DIR@/error.log" ];
	fortune.load "@D@/fortunes";
""" % (op, p01.CA, gp, p01.CA)
    sub = (("@SNI@", sni), ("@D@", d), ("@P@", "127.0.0.1:" + ports[0].decode()), ("@F@", "127.0.0.1:" + ports[1].decode()), ("@S@", "127.0.0.1:" + ports[2].decode()),
           ("@M@", "127.0.0.1:" + ports[3].decode()), ("@DOWN@", "127.0.0.1:%d" % server.free_port()))
    for k, v in sub:
        conf, setup = conf.replace(k, v), setup.replace(k, v)
    srv = server.Server(chk, conf, setup=setup, modules=p01.MODS, workers=workers, name=name, variant="tsan", preload=preload())
    os.makedirs(srv.dir + "/cache")
    open(os.path.join(srv.dir, "h.lua"), "w").write(p01.LUA)
    srv.start()
    srv.wait_port(op)
    srv.wait_port(gp)
    end = time.time() + seconds
    nconn = workers * 3
    total = 0
    stop = []

    def tls_clients(port, i):
        # handshakes with and without resumption
        cx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        cx.check_hostname, cx.verify_mode = False, ssl.CERT_NONE
        cx.maximum_version = ssl.TLSVersion.TLSv1_2 if i % 2 else ssl.TLSVersion.TLSv1_3
        if i % 2:
            cx.options |= ssl.OP_NO_TICKET
        sess, k = None, i
        while not stop and srv.alive():
            k += 1
            try:
                s = cx.wrap_socket(socket.create_connection(("127.0.0.1", port), 5), server_hostname=["test1.ssl", "test2.ssl", "nobody.example"][k % 3] if sess is None else "test1.ssl", session=sess)
                s.sendall(b"GET /lim HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n")
                while s.recv(65536):
                    pass
                if i % 4 < 2 and k % 5:
                    sess = s.session
                s.close()
                chk.count("tls", "handshakes")
            except (OSError, ValueError):
                sess = None

    def touch():
        # credentials change all the time
        k = 0
        while not stop:
            k += 1
            for f in ("users", "htpasswd"):
                try:
                    t = open(os.path.join(d, f)).read().rstrip("\n")
                    with open(os.path.join(d, f + ".new"), "w") as o:
                        o.write(t.split("\nzz")[0] + "\nzz%d:abc\n" % k)
                    os.rename(os.path.join(d, f + ".new"), os.path.join(d, f))
                except OSError:
                    pass
            time.sleep(0.3)

    bg = [threading.Thread(target=tls_clients, args=(p, i), daemon=True) for i, p in enumerate((op, gp, op, gp))] + [threading.Thread(target=touch, daemon=True)]
    for t in bg:
        t.start()
    r = chk.rng("hot", name)
    cs = []
    while time.time() < end and srv.alive():
        t = HOTPATHS[total % len(HOTPATHS)] if total < 3 * len(HOTPATHS) else r.choice(HOTPATHS)
        total += 1
        slow = t.startswith(("/rr", "/sqf", "/prx", "/mem", "/dir"))
        k = 6 if slow else 30
        q = (b"GET %s HTTP/1.1\r\nHost: a\r\nAuthorization: Basic dXNlcjpwYXNz\r\n%s\r\n" % (t.encode(), b"Accept-Encoding: gzip\r\n" if t.startswith("/cache") else b"")) * k
        last = b"GET /vh?last HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n"
        cs = []
        for i in range(nconn):
            try:
                s = socket.create_connection(("127.0.0.1", srv.port), 5)
                cs.append(s)
            except OSError:
                pass
        for s in cs:
            try:
                s.sendall(q + last)
            except OSError:
                pass
        got = 0
        lim = time.time() + 8
        for s in cs:
            b = b""
            try:
                while True:
                    s.settimeout(max(0.05, lim - time.time()))
                    x = s.recv(262144)
                    if not x:
                        break
                    b += x
            except OSError:
                pass
            got += b.count(b"HTTP/1.1 ")
            s.close()
        chk.ok(got, hot=t)
        chk.count("hot", t, got)
    stop.append(1)
    for t in bg:
        t.join(5)
    died = not srv.alive()
    if died:
        chk.violation("died:" + name, "server died under concurrent load (rc %s): %s" % (srv.proc.returncode, last_words(srv)), {"log": srv.logs()[-4000:]})
    else:
        srv.signal(signal.SIGINT)
        try:
            srv.proc.wait(90)
        except subprocess.TimeoutExpired:
            chk.inconcl("%s did not stop within 90 s under ThreadSanitizer" % name)
            srv.kill()
    judge(chk, srv, name)
    srv.reported = True


def cycles(chk, k):
    """start and stop while clients connect"""
    d = os.path.join(chk.scratch, "cyc%d" % k)
    os.makedirs(d)
    open(d + "/a.txt", "w").write("a")
    srv = server.Server(chk, 'docroot "%s"; if req.path == "/s" { status.info; } else { static; }' % d, setup='accesslog "%s/acc.log"; keepalive.timeout 5;' % d, modules=["mod_status", "mod_accesslog"],
                        workers=1 + k % 4, name="cyc%d" % k, variant="tsan", preload=preload())
    srv.start()
    r = chk.rng("cyc", k)
    cs = []
    for i in range(r.choice([0, 5, 30])):
        try:
            c = http.Conn(port=srv.port, timeout=5)
            c.send(http.build_request("GET", r.choice(["/a.txt", "/s", "/s?format=plain", "/x"])))
            if r.random() < 0.6:
                c.read_response("GET")
            cs.append(c)
        except (OSError, http.Closed, http.Timeout):
            pass
    srv.signal(signal.SIGINT)
    for c in cs:
        c.close()
    try:
        srv.proc.wait(60)
    except subprocess.TimeoutExpired:
        chk.inconcl("cycle %d did not stop" % k)
        srv.kill()
    judge(chk, srv, "start/stop cycle with %d connections" % len(cs))
    srv.reported = True
    chk.ok(1, kind="cycle", workers=1 + k % 4, conns=len(cs))


def run(chk):
    build.build("tsan")
    preload()
    secs = 12 if chk.tier == "quick" else 60
    if chk.want("cycles"):
        check.parallel(4, lambda k: cycles(chk, k), list(range(chk.n(12))))
    if chk.want("hot"):
        hot(chk, "hot4", 4, secs)
    if chk.want("world"):
        world(chk, "w4", 4, secs, 2, False)
    if chk.want("stop"):
        world(chk, "w3stop", 3, secs, 2, True)
    if chk.want("sync") and chk.tier != "quick":
        world(chk, "w8sync", 8, secs, 3, False, extra="stat.async false;\nbuffer_request_body false;\n")


if __name__ == "__main__":
    c = check.Check("P02", rule="ThreadSanitizer build with GLib/libev synchronisation announced by an interposer, all modules loaded, several workers; ordinary and hostile clients ask for the same resources at once; "
                    "stop while serving; oracle: no report in which both accesses happen on behalf of server code")
    check.run(c, run, min_evals=50)
