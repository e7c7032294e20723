"""P32: which virtual host answers, for generated maps of names, all spellings of a host, and interleaved requests"""
import os
import re
import socket
import ssl

from vf import backends, build, check, http, server, urlref

CA = os.path.join(os.environ.get("VF_REPO", "/repo"), "tests/ca")
LAB = ["a", "b", "www", "WWW", "Shop", "x-1", "xn--bcher-kva", "0", "10", "127", "example", "Example", "test", "long" * 12, "m", "aa", "a-b", "_srv", "e%41x", "o!k"]
TLD = ["com", "org", "COM", "tld", "example", "local"]


def name(r):
    k = r.random()
    if k < 0.08:
        return "%d.%d.%d.%d" % tuple(r.choice([0, 1, 10, 127, 255]) for _ in range(4))
    if k < 0.14:
        return r.choice(["[::1]", "[2001:db8::1]", "[2001:DB8::A]", "[::ffff:1.2.3.4]"])
    if k < 0.2:
        return r.choice(["localhost", "intranet", "a", "B"])
    return ".".join(r.choice(LAB) for _ in range(r.choice([1, 1, 2, 2, 3, 5]))) + "." + r.choice(TLD)


class World:
    """one configuration: ids of virtual hosts, content directory per id"""
    def __init__(self, chk, rnd):
        r = chk.rng("world", rnd)
        self.r = r
        self.rnd = rnd
        self.dir = os.path.join(chk.scratch, "w%d" % rnd)
        self.names = {}
        self.kind = {}
        seen = set()
        while len(self.names) < 50:
            n = name(r)
            if n.lower() in seen:
                continue
            seen.add(n.lower())
            self.names[n] = "v%d" % len(self.names)
        # neighbours: names that differ little from configured ones
        for n in list(self.names)[:25]:
            for m in (n + "x", "www." + n, n[:-1], n.replace(".", "-", 1), n.replace("a", "b", 1)):
                if r.random() < 0.3 and re.match(r"^[A-Za-z0-9._%!-]+$", m) and not m.endswith(".") and m.lower() not in seen and not re.search(r"%(?![0-9a-f]{2})", m):
                    seen.add(m.lower())
                    self.names[m] = "v%d" % len(self.names)
        self.regex = [(r"^(.*)\.wild\.test$", "r0"), (r"^(www\.)?multi\.(com|net)$", "r1"), (r"^w", "r2"), (r"(^|\.)sub\d+\.", "r3"), (r"^10\.", "r4"), (r"^\[2001:db8::[0-9]\]$", "r5")]
        self.hostdirs = ["h1.dir.test", "h2.dir.test", "x.h1.dir.test", "dir.test", "localdir", "[::2]"]
        self.ids = list(self.names.values()) + [x[1] for x in self.regex] + ["default"]
        for i in self.ids:
            self.content(os.path.join(self.dir, "id", i), i)
        for h in self.hostdirs:
            self.content(os.path.join(self.dir, "byhost", h, "htdocs"), "host:" + h)
        self.content(os.path.join(self.dir, "byhost-default"), "host-default")
        for d in ("dir.test", "test"):
            self.content(os.path.join(self.dir, "bydomain", d), "domain:" + d)
        self.content(os.path.join(self.dir, "bydomain-default"), "domain-default")
        with open(os.path.join(self.dir, "byhost", "afile.test"), "w") as f:
            f.write("not a directory")

    def content(self, d, i):
        os.makedirs(d + "/sub", exist_ok=True)
        os.makedirs(d + "/list", exist_ok=True)
        for n, t in (("/index.html", "index of <%s>\n"), ("/same.txt", "same <%s>\n"), ("/sub/index.html", "sub of <%s>\n"), ("/data.css", "data <%s> 0123456789\n")):
            with open(d + n, "w") as f:
                f.write((t % i) * 3)
        with open(d + "/list/only-" + re.sub(r"[^a-z0-9]", "_", i) + ".txt", "w") as f:
            f.write(i)
        with open(d + "/own-" + re.sub(r"[^a-z0-9]", "_", i) + ".txt", "w") as f:
            f.write("own <%s>\n" % i)

    def config(self, beport):
        r = self.r
        def act(i, extra=""):
            return '{ env.set "ID" => "%s"; header.add "X-V" => "%s"; docroot "%s/id/%s"; %s}' % (i, i, self.dir, i, extra)
        items = ["%s => %s" % ('"%s"' % n, act(i) if k % 2 == 0 else "site_%s" % i) for k, (n, i) in enumerate(self.names.items())]
        r.shuffle(items)
        o = "keepalive.requests 1000000; keepalive.timeout 60;\n"
        for k, (n, i) in enumerate(self.names.items()):
            if k % 2:
                o += "site_%s = %s;\n" % (i, act(i))
        rx = "vhost.map_regex [ %s, default => %s ]" % (", ".join('"%s" => %s' % (x, act(i)) for x, i in self.regex), act("default"))
        pos = r.randrange(len(items) + 1)
        items.insert(pos, "default => { %s; }" % rx)
        o += 'finish = { if req.path =^ "/bk/" { req_header.overwrite "X-Id" => "%%{req.env[ID]}"; proxy "127.0.0.1:%d"; } index ("index.html"); dirlist; static; deflate; };\n' % beport
        # by directory name
        o += 'if req.header["X-Mode"] == "dir" { docroot ("%s/byhost/$0/htdocs", "%s/byhost-default"); finish; }\n' % (self.dir, self.dir)
        o += 'else if req.header["X-Mode"] == "file" { docroot ("%s/byhost/$0", "%s/byhost-default"); finish; }\n' % (self.dir, self.dir)
        o += 'else if req.header["X-Mode"] == "dom" { docroot ("%s/bydomain/$[1-2]", "%s/bydomain/$1", "%s/bydomain-default"); finish; }\n' % ((self.dir,) * 3)
        # a chain of conditions
        o += 'else if req.header["X-Mode"] == "cond" {\n'
        for k, (n, i) in enumerate(self.names.items()):
            if k < 30:
                o += '\t%sif req.host == "%s" { header.add "X-V" => "%s"; docroot "%s/id/%s"; }\n' % ("else " if k else "", n.lower(), i, self.dir, i)
        o += '\telse { header.add "X-V" => "default"; docroot "%s/id/default"; }\n\tfinish;\n} else {\n\tvhost.map [ %s ];\n\tfinish;\n}\n' % (self.dir, ", ".join(items))
        return o

    def expect(self, mode, host):
        """host: as configured by the rules of names (lower case, no port, no dot)"""
        if mode == "dir":
            h = host if host in self.hostdirs else None
            return "host:" + h if h else "host-default"
        if mode == "file":
            return None if host in self.hostdirs or not host else "host-default"
        if mode == "dom":
            l = host.split(".") if host else []
            two = ".".join(l[-2:])
            if not l:
                return None
            if two == "dir.test":
                return "domain:dir.test"
            if two == "test" or l[-1] == "test":
                return "domain:test"
            return "domain-default"
        if mode == "cond":
            for k, (n, i) in enumerate(self.names.items()):
                if k < 30 and n.lower() == host:
                    return i
            return "default"
        for n, i in self.names.items():
            if n.lower() == host:
                return i
        for x, i in self.regex:
            if re.search(x, host):
                return i
        return "default"


def mixcase(r, s):
    return "".join(c.upper() if r.random() < 0.4 else c for c in s)


def run(chk):
    build.build("asan")

    def app(rq):
        h = dict((k.lower(), v) for k, v in rq.headers)
        b = b"<%s|%s>" % (h.get(b"x-id", b"?"), h.get(b"host", b""))
        return [("raw", b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s" % (len(b), b)), ("end",)]
    be = backends.HttpStub(app)
    chk.cleanup(be.stop)
    tls = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    tls.check_hostname = False
    tls.verify_mode = ssl.CERT_NONE
    for rnd in range(chk.n(9)):
        w = World(chk, rnd)
        tport = server.free_port()
        tmod = ["openssl", "gnutls"][rnd % 2]
        srv = server.Server(chk, w.config(be.port), setup='%s [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem" ];\n' % (tmod, tport, CA),
                            modules=["mod_vhost", "mod_dirlist", "mod_deflate", "mod_proxy", "mod_" + tmod], workers=2, name="w%d" % rnd).start()
        srv.wait_port(tport)
        known = list(w.names) + w.hostdirs + ["foo.wild.test", "a.b.wild.test", "multi.com", "www.multi.net", "whatever.tld", "z.sub42.org", "10.9.8.7", "[2001:db8::7]", "afile.test", "y.dir.test", "q.test"]

        def one(j, again=False):
            r = chk.rng("req", rnd, j)
            sock = None
            cur = None
            if r.random() < 0.3:
                s = socket.create_connection(("127.0.0.1", tport), timeout=20)
                sni = r.choice(known)
                sock = tls.wrap_socket(s, server_hostname=None if not re.match(r"^[A-Za-z0-9.-]+$", sni) or re.match(r"^[0-9.]+$", sni) or max(map(len, sni.split("."))) > 63 else sni)
            c = http.Conn(sock=sock) if sock else http.Conn(port=srv.port)
            scheme = "https" if sock else "http"
            try:
                q = []
                for _ in range(15):
                    k = r.random()
                    base = r.choice(known) if k < 0.8 else name(r) if k < 0.95 else r.choice(known) + r.choice(["x", ".x", "-"])
                    mode = r.choice(["map", "map", "map", "map", "cond", "dir", "dir", "file", "dom"])
                    if base.startswith("[") and base[-1] != "]":
                        base = "[::3]"
                    if mode == "dom" and (base.startswith("[")):
                        mode = "dir"
                    sp = mixcase(r, base) if r.random() < 0.6 else base
                    if not sp.startswith("[") and r.random() < 0.25:
                        sp += r.choice([".", "..", "..."])
                    if r.random() < 0.35:
                        sp += ":" + r.choice(["80", "443", "8080", "1", "99999", str(srv.port)])
                    ab = r.random()
                    path = r.choice(["/", "/index.html", "/same.txt", "/sub/", "/sub", "/data.css", "/list/", "/own", "/bk/x"])
                    hostv = sp
                    ver = "1.1"
                    nohost = False
                    abs_ = None
                    if ab < 0.2:
                        # the host of an absolute uri counts, not the header
                        abs_ = r.choice(["http", "https"]) + "://" + r.choice(["", "", "user@", "u:p@", "www.evil.com@", "a:80@"]) + sp
                        hostv = mixcase(r, r.choice(known))
                        if r.random() < 0.2 and not hostv.startswith("["):
                            hostv += ":81"
                    elif ab < 0.25:
                        ver, nohost = "1.0", True
                    h = base.lower() if not nohost else ""
                    want = w.expect(mode, h)
                    if want is None or re.search(r"%(?![0-9a-fA-F]{2})", sp + hostv):
                        continue
                    if path == "/own":
                        other = r.choice([want, r.choice(w.ids), "default"])
                        path = "/own-" + re.sub(r"[^a-z0-9]", "_", other) + ".txt"
                    m = r.choice(["GET", "GET", "GET", "HEAD"])
                    head = "%s %s%s HTTP/%s\r\n" % (m, abs_ or "", path, ver)
                    lines = [] if nohost else ["%s: %s%s" % (r.choice(["Host", "host", "HOST"]), r.choice(["", " ", "  "]), hostv)]
                    lines += ["X-Mode: " + mode] + (["Connection: keep-alive"] if ver == "1.0" else [])
                    if r.random() < 0.15:
                        lines.append("Range: bytes=0-999")
                    if r.random() < 0.2:
                        lines.append("X-Forwarded-Host: " + r.choice(known))
                    r.shuffle(lines)
                    q.append((head + "\r\n".join(l.replace(": ", ":") if l.startswith("Host") and r.random() < .1 else l for l in lines) + "\r\n\r\n", m, path, mode, h, want, sp if abs_ is None else abs_))
                # sometimes several in one go
                i = 0
                while i < len(q):
                    n = r.choice([1, 1, 1, 2, 4])
                    part = q[i:i + n]
                    i += n
                    c.send("".join(x[0] for x in part).encode("latin-1"))
                    for raw, m, path, mode, h, want, sp in part:
                        cur = (raw, mode, want)
                        rsp = c.read_response(m)
                        judge(chk, w, rsp, raw, m, path, mode, h, want, sp, scheme)
            except (http.Closed, http.ProtoError, http.Timeout, OSError) as e:
                srv.verify("requests", expect_alive=True)
                if not again:
                    return one(j, True)
                chk.violation("noanswer", "%s: %s instead of the answer to %r (virtual host %s)" % (type(e).__name__, e, cur and cur[0], cur and cur[2]), {"request": cur and cur[0], "mode": cur and cur[1]})
            finally:
                c.close()
        check.parallel(8, one, range(chk.n(200)))
        srv.verify("end")
        srv.stop()


def judge(chk, w, rsp, raw, m, path, mode, h, want, sp, scheme):
    ctx = {"request": raw, "mode": mode, "expected": want, "tls": scheme}

    def bad(key, what):
        chk.violation(key, "%s (host %r, %s): %s" % (path, h, mode, what), ctx)
    if path == "/bk/x":
        if m == "GET":
            hid = want if mode in ("map",) else ""
            if rsp.status != 200 or not rsp.body.startswith(b"<%s|" % hid.encode()):
                bad("backend", "backend was told %r" % rsp.body)
        chk.ok(path=path, mode=mode)
        return
    own = path.startswith("/own-")
    safe = re.sub(r"[^a-z0-9]", "_", want)
    xv = rsp.get(b"x-v")
    if mode in ("map", "cond") and rsp.status < 400 and (xv or b"").decode() != want:
        bad("vhost", "virtual host %r, expected %r" % (xv, want))
    if own:
        st = 200 if path == "/own-%s.txt" % safe else 404
        if rsp.status not in ((st, 206) if st == 200 else (404,)):
            bad("isolation", "status %d, expected %d (%s)" % (rsp.status, st, want))
    elif path == "/sub":
        loc = (rsp.get(b"location") or b"").decode("latin-1")
        auth = sp.split("://")[-1].lower()
        # (the authority is repeated as sent)
        if rsp.status != 301 or loc.lower() != "%s://%s/sub/" % (scheme, auth):
            # (without a host the address of the server is used)
            if h:
                bad("redirect", "status %d, Location %r, expected %s" % (rsp.status, loc, auth))
    elif path == "/list/":
        if rsp.status != 200:
            bad("status", "status %d" % rsp.status)
        elif m == "GET":
            got = set(re.findall(rb'href="(only-[^"]*)"', rsp.body))
            if got != {("only-%s.txt" % safe).encode()}:
                bad("isolation", "listing shows %r, expected only-%s.txt" % (got, safe))
    else:
        if rsp.status not in (200, 206):
            bad("status", "status %d" % rsp.status)
        elif m == "GET":
            ids = set(re.findall(rb"<([^>]*)>", rsp.body))
            if ids != {want.encode()}:
                bad("isolation", "content of %r, expected %r" % (ids, want))
    chk.ok(path=path[:5], mode=mode, status=rsp.status, kind="abs" if "://" in raw.split("\r\n")[0] else "h", known=want[:2], tls=scheme)


if __name__ == "__main__":
    c = check.Check("P32", rule="one evaluation = one request in some spelling of a host name whose content, redirect, listing or backend identity was compared with the virtual host the configuration selects; distinct = (path, way of selecting, status, absolute uri, class of host, tls)")
    check.run(c, run, min_evals=2000)
