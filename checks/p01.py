"""P01: hostile bytes never corrupt or kill the server"""
import glob
import json
import os
import re
import signal
import subprocess
import sys
import threading
import time

from vf import build, check, http, server

CA = os.path.join(build.REPO, "tests/ca")
MODS = server.ALL_MODULES + ["mod_openssl", "mod_gnutls"]

LUA = r'''
local function h(vr)
  if vr:handle_direct() then
    vr.resp.status = 200
    vr.resp.headers["Content-Type"] = "text/plain"
    vr.out:add(vr.req.http_method .. " " .. vr.req.uri.path .. "?" .. tostring(vr.req.uri.query) .. " " .. tostring(vr.req.uri.host) .. "\n")
    for k, v in vr.req.headers:pairs() do vr.out:add(k .. "=" .. v .. "\n") end
    for k, v in vr.env:pairs() do vr.out:add(k .. "=" .. v .. "\n") end
    local x = vr.req.headers:get("X-Lua")
    if x then vr.resp.headers:insert("X-Back", x); vr.resp.headers:append("X-Back", x) end
    local m = vr.req.headers:get("X-Mode")
    if m == "3" then error("script failed " .. m) end
    if m == "4" then vr.out:add({filename = "@D@/a.txt"}) end
    vr.out:add(lighty.path_simplify(vr.req.uri.path) .. lighty.md5(vr.req.uri.path))
  end
end
actions = h
'''
LUAF = r'''
local F = {}
F.__index = F
function F:new(vr)
  local o = { n = 0 }
  setmetatable(o, self)
  return o
end
function F:handle(vr, outq, inq)
  self.n = self.n + 1
  if self.n == 1 then outq:add("[") end
  outq:steal_all(inq)
  if inq.is_closed and not outq.is_closed then outq:add("]"); outq.is_closed = true end
  return lighty.HANDLER_GO_ON
end
actions = lighty.filter_%s(F)
'''
LUAMEM = r'''
local c = memcached.new("@M@")
actions = function(vr)
  if vr:handle_direct() then vr.resp.status = 200 end
  local k = vr.req.uri.path
  if REQ.r == nil then
    local r, e = c:get(k:sub(1, 200), vr)
    if not r then vr.out:add(tostring(e)); return end
    REQ.r = r
    return lighty.HANDLER_WAIT_FOR_EVENT
  end
  if not REQ.r.response then return lighty.HANDLER_WAIT_FOR_EVENT end
  if REQ.s == nil then
    vr.out:add(tostring(REQ.r.response.data))
    local r, e = c:set(k:sub(1, 200), "value", vr, 10)
    if not r then return end
    REQ.s = r
    return lighty.HANDLER_WAIT_FOR_EVENT
  end
  if not REQ.s.response then return lighty.HANDLER_WAIT_FOR_EVENT end
  c:setq("q" .. k:sub(1, 100), k, 5)
end
'''

CONF = """
docroot "@D@";
mime_types ( ".txt" => "text/plain", ".html" => "text/html", ".bin" => "application/octet-stream", ".flv" => "video/x-flv" );
server.name "srv.example";
header.add "X-H" => "%{req.host} %{enc:req.path}";
env.set "E" => "%{req.header[X-Lua]}";
progress.track;
vhost.map [ "vh1.example" => { header.add "X-VH" => "1"; }, "vh2.example" => { header.add "X-VH" => "2"; }, default => { header.add "X-VH" => "d"; } ];
vhost.map_regex [ "^(.*)\\\\.wild\\\\.example$" => { header.add "X-W" => "%1"; } ];
if req.path == "/probe" { respond 200 => "alive"; }
else if req.path =^ "/list/" { dirlist [ "include-readme" => true, "include-header" => true ]; }
else if req.path =^ "/z/" { alias "/z/" => "@D@/"; static; deflate; }
else if req.path =^ "/flv/" { alias "/flv/" => "@D@/"; flv; }
else if req.path =^ "/auth/" { auth.plain ["method" => "basic", "realm" => "r", "file" => "@D@/users", "ttl" => 1]; alias "/auth/" => "@D@/"; static; }
else if req.path =^ "/dig/" { auth.htpasswd ["method" => "basic", "realm" => "r", "file" => "@D@/htpasswd"]; alias "/dig/" => "@D@/"; static; }
else if req.path =^ "/acc/" { access.check ("allow" => ["127.1.0.0/16", "::/0"], "deny" => ["all"]); alias "/acc/" => "@D@/"; static; }
else if req.path =^ "/redir/" { redirect "^/redir/(.*)$" => "/z/$1?%{req.query}%{req.host}"; }
else if req.path =^ "/rw/" { rewrite ("^/rw/(.*)/(.*)$" => "/a.txt?x=$1&y=$2&$0", "^/rw/" => "/big.bin"); static; }
else if req.path =^ "/rwr/" { rewrite_raw "^/rwr/(.*)$" => "/$1"; static; }
else if req.path =^ "/proxy/" { proxy "@P@"; deflate; }
else if req.path =^ "/fcgi/" { fastcgi "@F@"; }
else if req.path =^ "/scgi/" { scgi "@S@"; }
else if req.path =^ "/bal/" { balance.rr ({ proxy "@P@"; }, { proxy "@DOWN@"; }, { fastcgi "@F@"; }); }
else if req.path =^ "/sqf/" { balance.sqf ({ scgi "@S@"; }, { proxy "@P@"; }); }
else if req.path =^ "/mem/" { memcached.lookup (["server" => "@M@"], { header.add "X-M" => "hit"; }, { header.add "X-M" => "miss"; respond 200 => "miss"; }); }
else if req.path =^ "/mst/" { proxy "@P@"; memcached.store ["server" => "@M@", "ttl" => 60]; }
else if req.path =^ "/cache/" { proxy "@P@"; cache.disk.etag "@DIR@/cache"; }
else if req.path =^ "/etagc/" { rewrite "." => "/big.txt"; static; deflate; cache.disk.etag "@DIR@/cache"; }
else if req.path =^ "/limit/" { limit.con 4; limit.con_ip 2; limit.req 50 => { respond 503 => "limit"; }; limit.req_ip 20; respond 200 => "lim"; }
else if req.path =^ "/thr/" { io.throttle 300kbyte; alias "/thr/" => "@D@/"; static; }
else if req.path =^ "/pool/" { io.throttle_pool 2mbyte; io.throttle_ip 1mbyte; alias "/pool/" => "@D@/"; static; }
else if req.path =^ "/prog/" { proxy "@P@"; }
else if req.path == "/progress" { progress.show "jsonp"; }
else if req.path == "/status" { status.info; }
else if req.path == "/dbg" { debug.show_connections; }
else if req.path =^ "/exp/" { expire "modification 2 days 3 hours"; alias "/exp/" => "@D@/"; static; }
else if req.path =^ "/~" { userdir "@D@/home/*/pub"; static; }
else if req.path == "/fortune" { fortune.page; }
else if req.path == "/fortune/h" { fortune.header; respond 200 => "x"; }
else if req.path =^ "/lua/" { lua.handler "@DIR@/h.lua"; }
else if req.path =^ "/luaf/" { alias "/luaf/" => "@D@/"; static; lua.handler "@DIR@/fout.lua"; }
else if req.path =^ "/luain/" { lua.handler "@DIR@/fin.lua"; proxy "@P@"; }
else if req.path =^ "/luamem/" { lua.handler "@DIR@/mem.lua"; }
else if req.path =^ "/xs/" { proxy "@P@"; core.xsendfile "@D@"; }
else if req.path =^ "/wsgi" { core.wsgi ("/wsgi", { fastcgi "@F@"; }); }
else if req.path =^ "/html/" { alias "/html/" => "@D@/"; core.cached_html; static; }
else if req.path =^ "/secd/" { secdownload ["prefix" => "/secd/", "document-root" => "@D@", "secret" => "abc", "timeout" => 600]; static; }
else if req.path =^ "/up/" { proxy "@P@"; }
else if req.path =^ "/upn/" { buffer_request_body false; proxy "@P@"; }
else if req.path =^ "/upnf/" { buffer_request_body false; fastcgi "@F@"; }
else if req.path =^ "/prof" { debug.show_events; }
else if req.path =^ "/pi/" { alias "/pi/" => "@D@/"; pathinfo; static; }
else if req.path =^ "/pat/" { respond 200 => "%{req.path} %{req.query} %{req.remoteip} %{req.header[user-agent]} $0 $[1-] %[2]"; }
else if req.path =^ "/cond/" {
	if req.header["X-Lua"] =~ "^(a+)(b+)$" or req.query =$ "x" or req.remoteip =/ "127.1.0.0/16" and req.length > 100 or req.localport == 80 { header.add "X-C" => "%1"; }
	if !phys.exists { respond 404 => "none %{phys.path}"; }
	respond 200 => "cond";
}
else if req.path =^ "/async/" { stat.async false; alias "/async/" => "@D@/"; static; }
else if req.path =^ "/err/" { respond 404; }
if phys.is_dir { index ("index.html", "/idx.html"); }
static;
"""


def setup_dir(d):
    os.makedirs(d + "/list/dir")
    os.makedirs(d + "/sub")
    os.makedirs(d + "/home/bob/pub")
    w = lambda n, b: open(os.path.join(d, n), "wb").write(b)
    w("a.txt", b"hello world\n")
    w("idx.html", b"<html>idx</html>")
    w("page.html", b"<html>page</html>")
    w("sub/index.html", b"sub")
    w("home/bob/pub/a.txt", b"bob")
    w("big.bin", bytes(range(256)) * 1200)
    w("big.txt", b"some text to compress 0123456789\n" * 9000)
    w("v.flv", b"FLV" + b"v" * 100000)
    w("list/README.txt", b"readme")
    w("list/HEADER.txt", b"<b>head")
    for i in range(40):
        w("list/f%02d & <x>'\".txt" % i, b"x" * i)
    w("users", b"user:pass\nother:x\n")
    w("htpasswd", b"user:$apr1$abcdefgh$cGx4uKaKL0CUZJmdaBxD50\nold:abJnggxhB/yWI\n")
    w("fortunes", b"one\ntwo\nthree\n")


class Watch(threading.Thread):
    """asks for the fixed page all the time: the server has to answer whatever others do"""

    def __init__(self, chk, srv):
        super().__init__(daemon=True)
        self.chk, self.srv, self.end, self.n, self.bad, self.worst, self.fds = chk, srv, False, 0, [], 0.0, 0

    def run(self):
        miss = 0
        while not self.end:
            t = time.time()
            try:
                c = http.Conn(port=self.srv.port, timeout=20)
                c.send(b"GET /probe HTTP/1.1\r\nHost: probe\r\nConnection: close\r\n\r\n")
                r = c.read_response("GET")
                c.close()
                if r.status != 200 or r.body != b"alive":
                    self.bad.append("status %s body %r" % (r.status, r.body[:60]))
                miss = 0
                self.n += 1
                self.worst = max(self.worst, time.time() - t)
            except Exception as e:
                if self.end or not self.srv.alive():
                    return
                miss += 1
                if miss >= 2:
                    self.bad.append("no answer twice within 20 s: %r" % e)
                    return
            try:
                self.fds = max(self.fds, len(self.srv.fds()))
            except OSError:
                pass
            time.sleep(0.1)


def py(args, scratch, name):
    env = dict(os.environ, PYTHONPATH=build.VERIF, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([sys.executable, "-m", "vf.fuzz"] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=open(os.path.join(scratch, name + ".err"), "wb"),
                            stdin=subprocess.DEVNULL, cwd=build.VERIF, env=env)


def kill(p):
    if p.poll() is None:
        p.kill()
        p.wait()


def sockets(srv):
    return {f: t for f, t in srv.fds().items() if t.startswith("socket:") or "lighttpd-buffer" in t or t.startswith(os.path.join(srv.dir, "cache")) or "/www/" in t}


def tcp_of(fds):
    """descriptor -> local, remote, state"""
    t = {}
    for l in open("/proc/net/tcp").read().split("\n")[1:]:
        f = l.split()
        if len(f) > 9:
            ad = lambda x: "%d.%d.%d.%d:%d" % (tuple(reversed(bytes.fromhex(x[:8]))) + (int(x[9:], 16),))
            t["socket:[%s]" % f[9]] = "%s-%s st=%s" % (ad(f[1]), ad(f[2]), f[3])
    return {k: t.get(v, v) for k, v in fds.items()}


def round_(chk, name, workers, seconds, sessions, procs, threads):
    r = chk.rng(name)
    d = os.path.join(chk.scratch, "%s-www" % name, "www")
    setup_dir(d)
    bdump = os.path.join(chk.scratch, name + ".bdump")
    be = py(["backend", "%s/%s" % (chk.seed, name), bdump], chk.scratch, name + "-be")
    chk.cleanup(lambda: kill(be))
    ports = be.stdout.readline().split()
    op, gp = server.free_port(), server.free_port()
    conf = CONF
    setup = """
	io.timeout 4;
	keepalive.timeout 2;
	stat_cache.ttl 2;
	openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "ca-file" => "%s/intermediate.crt" ];
	gnutls [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem" ];
	accesslog "@DIR@/access.log";
	accesslog.format "%%h %%V %%u %%t \\"%%r\\" %%>s %%b %%{Referer}i %%{X-H}o %%D %%T %%m %%U %%q %%I %%O %%X %%p %%f %%{E}e";
	fortune.load "@D@/fortunes";
	lua.plugin "%s/contrib/core.lua";
	lua.plugin "%s/contrib/secdownload.lua";
""" % (op, CA, CA, gp, CA, build.REPO, build.REPO)
    sub = (("@D@", d), ("@P@", "127.0.0.1:" + ports[0].decode()), ("@F@", "127.0.0.1:" + ports[1].decode()), ("@S@", "127.0.0.1:" + ports[2].decode()),
           ("@M@", "127.0.0.1:" + ports[3].decode()), ("@DOWN@", "127.0.0.1:%d" % server.free_port()))
    for k, v in sub:
        conf, setup = conf.replace(k, v), setup.replace(k, v)
    if "asyncoff" in name:
        conf = "stat.async false; buffer_request_body false;\n" + conf
    srv = server.Server(chk, conf, setup=setup, modules=MODS, workers=workers, leaks=True, name=name, ubsan=True)
    os.makedirs(srv.dir + "/cache")
    for n, t in (("h.lua", LUA), ("fout.lua", LUAF % "out"), ("fin.lua", LUAF % "in"), ("mem.lua", LUAMEM)):
        for k, v in sub:
            t = t.replace(k, v)
        open(os.path.join(srv.dir, n), "w").write(t)
    srv.start()
    srv.wait_port(op)
    srv.wait_port(gp)
    # every page once, so that lazily opened descriptors exist
    for t in ("/a.txt", "/list/", "/probe", "/lua/x", "/proxy/x"):
        try:
            http.get(srv.port, t, timeout=10)
        except Exception:
            pass
    base = len(sockets(srv))
    watch = Watch(chk, srv)
    watch.start()
    dumps = [os.path.join(chk.scratch, "%s-c%d.dump" % (name, i)) for i in range(procs)]
    cl = [py(["client", "%s/%s/%d" % (chk.seed, name, i), sessions, seconds, threads, dumps[i], "%d:%d:%d" % (srv.port, op, gp)], chk.scratch, "%s-c%d" % (name, i)) for i in range(procs)]
    for p in cl:
        chk.cleanup(lambda p=p: kill(p))
    tot = 0
    for p in cl:
        try:
            out, _ = p.communicate(timeout=seconds + 90)
        except subprocess.TimeoutExpired:
            kill(p)
            out = b""
        try:
            st = json.loads(out)
        except ValueError:
            st = {}
        tot += st.pop("sessions", 0)
        for k, v in st.items():
            a, _, b = k.partition(":")
            chk.count(a, b or "-", v)
    alive = srv.alive()
    # descriptors of finished connections come back
    left, t = {}, time.time()
    be.send_signal(signal.SIGTERM)
    try:
        out, _ = be.communicate(timeout=10)
        for k, v in json.loads(out).items():
            chk.count("backend_connections", k, v)
    except Exception:
        kill(be)
    while alive and time.time() - t < 40:
        watch_open = 1
        left = sockets(srv)
        mc = ":%d " % int(ports[3])
        left = {k: v for k, v in left.items() if mc not in tcp_of({k: v})[k]}    # one idle memcached connection per worker and context is kept
        if len(left) <= base + watch_open:
            break
        time.sleep(0.3)
        alive = srv.alive()
    watch.end = True
    watch.join(25)
    wit = {"clients": [], "backends": None}
    if not alive or srv.san_reports() or watch.bad:
        for f in dumps:
            try:
                wit["clients"].append(json.load(open(f))[-12:])
            except (OSError, ValueError):
                pass
        try:
            wit["backends"] = json.load(open(bdump))[-12:]
        except (OSError, ValueError):
            pass
        if os.environ.get("VF_P01_DUMP"):
            json.dump(wit, open(os.environ["VF_P01_DUMP"], "w"), indent=1)
    srv.verify("hostile peers (%s)" % name)
    if alive:
        if watch.bad:
            chk.violation("unanswered:%s" % name, "the fixed page was not answered while others misbehaved: %s" % watch.bad[:3], wit)
        if len(left) > base + 1:
            try:
                page = http.get(srv.port, "/dbg", timeout=10).body.decode("latin-1")
                wit["connections"] = "".join(re.findall(r"(?s)<pre>.*?</pre>", http.get(srv.port, "/dbg?" + q, timeout=10).body.decode("latin-1"))[0]
                                             for q in re.findall(r'href="\?([^"]*)"', page)[:12])
            except Exception as e:
                wit["connections"] = repr(e)
            wit["ports"] = [p.decode() for p in ports]
            chk.violation("fds:%s" % name, "%d descriptors of finished connections are still open 40 s after the last client (before: %d): %s" % (len(left), base, list(tcp_of(left).items())[:20]), wit)
        time.sleep(0.3)
        c0 = srv.cpu()
        time.sleep(1.0)
        c1 = srv.cpu()
        if c1 - c0 > 0.6:
            c0 = srv.cpu()
            time.sleep(3.0)
            c1 = srv.cpu()
            if c1 - c0 > 1.8:
                chk.violation("busy:%s" % name, "the idle server used %.2f s of CPU in 3 s after all peers had gone" % (c1 - c0), wit)
        rc = srv.stop(timeout=60)
        if rc is None:
            chk.violation("stop:%s" % name, "the server did not stop within 60 s after hostile clients had gone", wit)
    chk.ok(tot, config=name)
    chk.ok(watch.n, probe="answered")
    chk.count("max_open_descriptors", name, watch.fds)
    chk.count("slowest_probe_ms", name, int(watch.worst * 1000))
    for f in glob.glob("/var/tmp/lighttpd-buffer-*"):
        pass


def run(chk):
    build.build("asan")
    n = max(1, chk.n(4) // 4)       # rounds
    secs = 22 if chk.tier == "quick" else 60
    for k in range(n):
        # two servers at a time
        check.parallel(2, lambda a: round_(chk, *a), [("w3-%d" % k, 3, secs, 10 ** 6, 3, 10), ("w1-asyncoff-%d" % k, 1, secs, 10 ** 6, 3, 8)])
        if chk.violations:
            break


if __name__ == "__main__":
    c = check.Check("P01", rule="fuzzed sessions (grammar + byte mutation; plain, OpenSSL, GnuTLS; pipelining, segmentation, RST, half-close, stalls) against one ASan+UBSan server with all modules, with proxy/FastCGI/SCGI/memcached peers that answer mutated protocol data; "
                    "oracles: no sanitizer report, no abort, a fixed page is always answered, descriptors return to the baseline, an idle server uses no CPU, no leak at exit")
    check.run(c, run, min_evals=200)
