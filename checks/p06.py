"""P06: nothing outside the configured roots is ever revealed, whatever the request target or host is."""
import os
import re

from vf import build, check, http, server, urlref

TOK = re.compile(rb"TOKEN<([^>]*)>")


def run(chk):
    build.build("asan")
    base = os.path.join(chk.scratch, "base")
    B = os.fsencode(base)

    def put(rel):
        p = os.path.join(B, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b"TOKEN<" + rel + b">")
    files = [b"www/index.html", b"www/a.txt", b"www/sub/b.txt", b"www/sub/deep/er/c.txt", b"www/sp ace.txt", b"www/..hidden", b"www/...", b"www/x..y/z.txt", b"www/%2e%2e", b"www/a\\b.txt",
             b"www/\xc3\xa4.txt", b"www/sub/_x", b"www/~bob/inroot.txt",
             b"alias/f.txt", b"alias/d/g.txt", b"aliasb/h.txt", b"aliasfile.txt", b"hosts/one.example/i.txt", b"hosts/two.example/i.txt", b"hosts/example/i.txt", b"hosts/one/i.txt",
             b"hosts/secret.txt", b"hosts/secret/i.txt", b"hosts/.hidden/i.txt", b"users/bob/public/p.txt", b"users/bob/private.txt", b"users/bob/public/sub/q.txt", b"users/al_x-1/public/p.txt", b"users/secret.txt", b"rx/k/v.txt", b"rw/files/w.txt", b"rw/top.txt"]
    canaries = [b"secret.txt", b"etc/passwd", b"www-private/secret.txt", b"wwwsecret.txt", b"alias2/secret.txt", b"aliassecret", b"rx/secret.txt", b"CANARYDIR/x"]
    for f in files + canaries:
        put(f)
    conf = """
if req.host == "doc" { docroot "@B@/www"; static; }
else if req.host == "doc2" { docroot "@B@/www/"; index ["index.html"]; static; }
else if req.host == "list" { docroot "@B@/www"; dirlist ["hide-dotfiles" => false, "hide-tildefiles" => false]; static; }
else if req.host == "alias" { docroot "@B@/www"; alias [ "/al" => "@B@/alias", "/bl/" => "@B@/aliasb/", "/bl2/" => "@B@/aliasb", "/bl3" => "@B@/aliasb/", "/file" => "@B@/aliasfile.txt" ]; dirlist ["hide-dotfiles" => false]; static; }
else if req.host == "user" { docroot "@B@/www"; userdir "@B@/users/*/public"; dirlist; static; }
else if req.host == "user2" { docroot "@B@/www"; userdir "@B@/users/"; static; }
else if req.host == "rx" { docroot "@B@/www"; if req.path =~ "^/rx/([^/]*)/(.*)$" { rewrite "^/rx/[^/]*(/.*)$" => "$1"; docroot "@B@/rx/%1"; } static; }
else if req.host == "rw" { docroot "@B@/rw"; rewrite [ "^/x(.*)$" => "/$1", "^/y/(.*)$" => "/files/$1" ]; docroot "@B@/rw"; static; }
else if req.host == "raw" { rewrite_raw "^/x(.*)$" => "/$1"; docroot "@B@/rw"; static; }
else if req.host == "dual" { docroot [ "@B@/nonexistent", "@B@/www" ]; static; }
else if req.path =^ "/sub0" { docroot "@B@/hosts/$0"; rewrite "^/sub0(.*)$" => "$1"; docroot "@B@/hosts/$0"; dirlist; static; }
else { docroot "@B@/hosts/$2.$1"; static; }
""".replace("@B@", base)
    srv = server.Server(chk, conf, modules=["mod_userdir", "mod_rewrite", "mod_dirlist", "mod_vhost"], workers=2).start()

    def roots(host, path):
        """-> (allowed root relative to base, or None = not decided here, path below it)"""
        if host in (b"doc", b"doc2", b"list", b"dual"):
            return b"www", path
        if host == b"alias":
            for pre, d in ((b"/al", b"alias"), (b"/bl", b"aliasb"), (b"/bl2", b"aliasb"), (b"/bl3", b"aliasb")):
                if path == pre or path.startswith(pre + b"/"):
                    return d, path[len(pre):]
            if path == b"/file":
                return b"aliasfile.txt", b""
            if path.startswith(b"/file/"):
                return b"aliasfile.txt", path[5:]
            return b"www", path
        if host in (b"user", b"user2"):
            m = re.match(rb"^/~([a-zA-Z0-9_-]+)(/.*|)$", path)
            if m:
                return b"users/" + m.group(1) + (b"/public" if host == b"user" else b""), m.group(2) or b"/"
            return b"www", path
        if host == b"rx":
            m = re.match(rb"^/rx/([^/]*)(/.*)$", path)
            if m:
                return b"rx/" + m.group(1), m.group(2)
            return b"www", path
        if host == b"rw":
            m = re.match(rb"^/x(.*)$", path, re.S)
            if m:
                return b"rw", urlref.simplify(b"/" + m.group(1))
            m = re.match(rb"^/y/(.*)$", path, re.S)
            if m:
                return b"rw", urlref.simplify(b"/files/" + m.group(1))
            return b"rw", path
        return None

    frag = [b"..", b"..", b".", b"/", b"/", b"/", b"%2e", b"%2E%2e", b"%2f", b"%5c", b"%00", b"%252e%252e%252f", b"%c0%ae", b"\\", b"a.txt", b"sub", b"b.txt", b"secret.txt", b"www", b"www-private", b"-private", b"al", b"bl", b"bl2", b"bl3", b"file", b"~bob", b"~", b"~..", b"~bob..",
            b"private.txt", b"p.txt", b"rx", b"k", b"v.txt", b"x", b"y", b"..%2f", b"%2e%2e/", b"/../", b"//", b"...", b"..hidden", b"x..y", b"z.txt", b"index.html", b"etc/passwd", b"f.txt", b"d/g.txt", b"h.txt", b"files", b"w.txt", b"top.txt", b"%20", b"sp%20ace.txt", b"%25", b";", b"?", b"%3f", b"%23", b"..;", b".%2e", b"%2e.", b"i.txt", b"hosts", b"users", b"al_x-1",
            b"alias", b"alias2", b"2/secret.txt", b"CANARYDIR"]
    directed = [b"/../secret.txt", b"/..%2fsecret.txt", b"/%2e%2e/secret.txt", b"/%2e%2e%2fsecret.txt", b"/sub/../../secret.txt", b"/sub/%2e%2e/%2e%2e/secret.txt", b"/....//secret.txt", b"/..%5csecret.txt", b"/a.txt%00.html", b"/../www-private/secret.txt", b"/-private/secret.txt",
                b"/..%00/secret.txt", b"/%00/../secret.txt", b"/al/../secret.txt", b"/al../secret.txt", b"/al%2f../secret.txt", b"/al/%2e%2e/secret.txt", b"/bl../secret.txt", b"/bl/../secret.txt", b"/bl%2f%2e%2e%2fsecret.txt", b"/bl2../secret.txt", b"/bl3../secret.txt", b"/al2/secret.txt", b"/alsecret",
                b"/~../secret.txt", b"/~bob/../private.txt", b"/~bob/%2e%2e/private.txt", b"/~bob/..%2fprivate.txt", b"/~./bob/private.txt", b"/~bob%2f..%2f..%2fsecret.txt", b"/~%2e%2e/secret.txt", b"/~..%2fsecret.txt", b"/~/secret.txt", b"/~bob", b"/~bob/p.txt", b"/~bob/", b"/~al_x-1/p.txt", b"/~nobody/x",
                b"/rx/../secret.txt", b"/rx/%2e%2e/secret.txt", b"/rx/k/../../secret.txt", b"/rx//secret.txt", b"/rx/k/v.txt", b"/rx/./secret.txt", b"/rx/k/%2e%2e/secret.txt", b"/rx/..%2f/secret.txt", b"/rx/.%2e/secret.txt",
                b"/x/../secret.txt", b"/x../secret.txt", b"/x..%2fsecret.txt", b"/x%2e%2e/secret.txt", b"/x.%2e/secret.txt", b"/y/../../secret.txt", b"/y/..%2f..%2f..%2fsecret.txt", b"/y/w.txt", b"/x/top.txt", b"/x%252e%252e/secret.txt", b"/x%252e%252e%252fsecret.txt", b"/xfiles/w.txt", b"/x..", b"/x../../secret.txt",
                b"http://doc/../secret.txt", b"http://list/%2e%2e/", b"/", b"/sub/", b"/sub", b"/index.html", b"/%2e%2e", b"/%252e%252e", b"/..hidden", b"/...", b"/%2e%2e%2e", b"/x..y/z.txt", b"/a%5cb.txt", b"/%c3%a4.txt", b"/sp%20ace.txt", b"/sub%2fb.txt", b"/sub//b.txt", b"/a.txt/", b"/a.txt/b.txt", b"/a.txt/..", b"/a.txt/../sub/b.txt", b"/file", b"/file/..", b"/file/../secret.txt", b"/file%2f..%2fsecret.txt"]
    HOSTS = [b"doc", b"doc2", b"list", b"alias", b"user", b"user2", b"rx", b"rw", b"raw", b"dual"]
    ODDHOSTS = [b"one.example", b"two.example", b"ONE.example:80", b"example", b"..", b".", b"../www", b"...", b"..secret", b"secret", b".hidden", b"a..", b"..a", b"%2e%2e", b"..%2fwww", b"hosts", b"one.example.", b"[::1]", b"127.0.0.1", b"a.b.c.d.one.example", b"x.%2e%2e", b".%2e", b"one..example", b"..one.example", b"secret.txt", b"%2e.%2e"]

    def rand_target(r):
        if r.random() < 0.35:
            t = r.choice(directed)
            if r.random() < 0.5:
                t = bytearray(t)
                for _ in range(r.randrange(1, 4)):
                    k = r.randrange(4)
                    i = r.randrange(1, len(t) + 1)
                    if k == 0:
                        t[i:i] = r.choice([b"/", b"..", b"%2f", b"/../", b".", b"%2e", b"%00", b"\\"])
                    elif k == 1 and i < len(t):
                        c = t[i]
                        t[i:i + 1] = b"%%%02x" % c if c != 0x25 else b"%"
                    elif k == 2 and i < len(t):
                        del t[i]
                    else:
                        t += r.choice([b"/", b"/..", b"/.", b"?x", b"%2f..", b"/../secret.txt"])
                t = bytes(t)
            return t.replace(b" ", b"%20")
        return b"/" + b"".join(r.choice(frag) + r.choice([b"", b"/", b"/"]) for _ in range(r.randrange(1, 8)))

    def batch(i):
        r = chk.rng("b", i)
        c = None
        for j in range(60):
            if c is None:
                c = http.Conn(port=srv.port, timeout=30)
            odd = r.random() < 0.15
            host = r.choice(ODDHOSTS) if odd else r.choice(HOSTS)
            t = rand_target(r)
            if odd and r.random() < 0.5:
                t = r.choice([b"/i.txt", b"/sub0/i.txt", b"/sub0/", b"/secret.txt", b"/sub0/secret.txt", b"/sub0/../i.txt", b"/www/a.txt", b"/sub0/www/a.txt"])
            c.send(b"GET " + t + b" HTTP/1.1\r\nHost: " + host + b"\r\n\r\n")
            try:
                rsp = c.read_response("GET")
            except http.Closed as e:
                chk.violation("closed", "connection closed for %r: %s" % (t, e), {"target": t, "host": host})
                c = None
                continue
            if not rsp.keepalive():
                c = None
            wit = {"target": t, "host": host, "status": rsp.status, "body": rsp.body[:500]}
            toks = TOK.findall(rsp.body)
            bad = [x for x in toks if x in canaries]
            if bad or b"root:" in rsp.body or b"CANARYDIR" in rsp.body.replace(t, b"") and b"Directory" in rsp.body and b'href="CANARYDIR' in rsp.body:
                chk.violation("escape:%s" % host.decode("latin-1"), "request %r (host %r) revealed %r" % (t, host, bad), wit)
                continue
            sp = urlref.split(t)
            if sp is None or (sp[0] is not None):
                if rsp.status == 200 and sp is None:
                    chk.violation("invalid-accepted", "invalid target %r answered 200" % t, wit)
                    continue
                h = sp[0] if sp else None
                if h is None or h not in HOSTS:
                    chk.ok(outcome="invalid", status=rsp.status)
                    continue
                host = h
            rt = roots(host, sp[1])
            if rt is None:
                if odd and toks and not all(x.startswith(b"hosts/") for x in toks):
                    chk.violation("escape:hostmap", "request %r (host %r) revealed %r" % (t, host, toks), wit)
                    continue
                if host == b"raw" and toks and not all(x.startswith(b"rw/") for x in toks):
                    chk.violation("escape:raw", "request %r revealed %r" % (t, toks), wit)
                    continue
                chk.ok(outcome="contained", status=rsp.status)
                continue
            root, rel = rt
            if any(x in (b".", b"..") for x in root.split(b"/")):
                chk.violation("harness", "reference root %r" % root, wit)
                continue
            full = os.path.join(B, root) + rel
            fs = os.path.normpath(full) + (b"/" if rel.endswith(b"/") else b"")
            if any(not (x == root or x.startswith(root + b"/")) for x in toks):
                chk.violation("escape:%s" % host.decode(), "request %r revealed %r outside %r" % (t, toks, root), wit)
                continue
            isfile = os.path.isfile(full) and not full.endswith(b"/")
            if isfile:
                want = b"TOKEN<" + os.path.relpath(full, B) + b">"
                if rsp.status != 200 or rsp.body != want:
                    chk.violation("wrongfile:%s" % host.decode(), "request %r should deliver %r, got %d %r" % (t, want, rsp.status, rsp.body[:100]), wit)
                    continue
                chk.ok(outcome="file", host=host.decode())
            elif os.path.isdir(full) and full.endswith(b"/"):
                if rsp.status == 200 and not toks:
                    # a listing: exactly names of this directory
                    names = set(os.listdir(full))
                    links = {urlref.decode(x.rstrip(b"/")) for x in re.findall(rb'<a href="([^"]+)"', rsp.body)} - {b"..", b"."}
                    links = {x for x in links if not x.startswith(b"?") and x not in (b"../",)}
                    extra = links - names
                    if extra:
                        chk.violation("listing:%s" % host.decode(), "listing for %r shows %r which are not in %r" % (t, extra, full), wit)
                        continue
                    chk.ok(outcome="listing", host=host.decode())
                elif rsp.status == 200 and toks == [os.path.relpath(full, B) + b"/index.html"]:
                    chk.ok(outcome="index", host=host.decode())
                elif rsp.status == 200:
                    chk.violation("dir:%s" % host.decode(), "directory request %r delivered %r" % (t, toks), wit)
                else:
                    chk.ok(outcome="dir%d" % rsp.status, host=host.decode())
            else:
                if rsp.status == 200:
                    chk.violation("nofile:%s" % host.decode(), "request %r names nothing, got 200 %r" % (t, rsp.body[:100]), wit)
                    continue
                chk.ok(outcome="none%d" % rsp.status, host=host.decode())
    # every directed target on every host once
    def directed_all(h):
        c = None
        for t in directed:
            if c is None:
                c = http.Conn(port=srv.port, timeout=30)
            c.send(b"GET " + t + b" HTTP/1.1\r\nHost: " + h + b"\r\n\r\n")
            try:
                rsp = c.read_response("GET")
            except http.Closed:
                chk.violation("closed", "connection closed for %r" % t, {"target": t, "host": h})
                c = None
                continue
            if not rsp.keepalive():
                c = None
            bad = [x for x in TOK.findall(rsp.body) if x in canaries]
            if bad:
                chk.violation("escape:%s" % h.decode("latin-1"), "request %r (host %r) revealed %r" % (t, h, bad), {"target": t, "host": h})
            else:
                chk.ok(outcome="directed")
    check.parallel(8, directed_all, HOSTS + ODDHOSTS)
    check.parallel(8, batch, range(chk.n(500)))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P06", rule="one evaluation = one request whose answer revealed only content of the root chosen by the configuration and, where the reference resolver names a file, exactly that file; "
                    "distinct = hosts (mapping kinds), outcomes")
    check.run(c, run, min_evals=5000)
