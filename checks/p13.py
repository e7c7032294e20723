"""P13: what a backend is told about client, server and script comes from the server and the configuration, never from request headers."""
import base64
import os
import re
import ssl

from vf import build, bwork, check, http, server
from checks.p10 import cgi_name

SERVER_VARS = [b"SERVER_SOFTWARE", b"SERVER_NAME", b"GATEWAY_INTERFACE", b"SERVER_PORT", b"SERVER_ADDR", b"REMOTE_PORT", b"REMOTE_ADDR", b"SCRIPT_NAME", b"PATH_INFO",
               b"SCRIPT_FILENAME", b"DOCUMENT_ROOT", b"REQUEST_URI", b"QUERY_STRING", b"REQUEST_METHOD", b"REDIRECT_STATUS", b"SERVER_PROTOCOL", b"REQUEST_SCHEME",
               b"CONTENT_LENGTH", b"HTTPS", b"REMOTE_USER", b"AUTH_TYPE", b"PATH_TRANSLATED", b"REDIRECT_URI", b"SCGI", b"REMOTE_HOST", b"PATH", b"LD_PRELOAD"]


def variants(r, name):
    """header names that might end up as this variable"""
    n = name.decode()
    base = n.replace("_", "-")
    return r.choice([n, base, base.title(), n.lower(), base.lower(), "HTTP-" + base, "HTTP_" + n, "-" + base, n[5:] if n.startswith("HTTP_") else n,
                     n[5:].replace("_", r.choice("-.~!_")) if n.startswith("HTTP_") else base, "_" + n]) or "X"


def run(chk):
    build.build("asan")
    bk = bwork.Backends(chk)
    pw = os.path.join(chk.scratch, "pw")
    with open(pw, "w") as f:
        f.write("alice:secret\nbob:hunter2\n")
    ca = os.path.join(build.REPO, "tests", "ca")
    root = os.path.join(chk.scratch, "www")
    os.makedirs(root)
    setenv = {b"HTTP_X_VERIFIED": b"srv-verified", b"HTTP_X_USER": b"srv-user", b"CONTENT_TYPE": b"srv/type", b"APP_ROLE": b"srv-role", b"REMOTE_ADDR": b"10.9.8.7", b"SERVER_NAME": b"srv.name"}
    sets = "".join('env.set "%s" => "%s"; ' % (k.decode(), v.decode()) for k, v in setenv.items())
    conf = """docroot "%s"; keepalive.timeout 60; keepalive.requests 100000;
if req.path =~ "^/(proxy|fastcgi|scgi)/" { %s }
else if req.path =~ "^/(proxy|fastcgi|scgi)set/" { %s %s }
else if req.path =~ "^/(proxy|fastcgi|scgi)add/" { env.add "HTTP_X_VERIFIED" => "srv-verified"; env.add "HTTP_X_VERIFIED" => "second"; env.set "GONE" => "1"; env.remove "GONE"; %s }
else if req.path =~ "^/(proxy|fastcgi|scgi)auth/" { auth.plain ["method" => "basic", "realm" => "r", "file" => "%s", "ttl" => 10]; %s }
else { respond 404; }
""" % (root, bk.config(), sets, bk.config("set"), bk.config("add"), pw, bk.config("auth"))
    tport = server.free_port()
    srv = server.Server(chk, conf, modules=["mod_proxy", "mod_fastcgi", "mod_scgi", "mod_auth", "mod_openssl"], workers=3,
                        setup='openssl [ "listen" => "127.0.0.1:%d", "pemfile" => "%s/server_test1.ssl.pem", "ca-file" => "%s/intermediate.crt" ];' % (tport, ca, ca)).start().wait_port(tport)
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    ctx.verify_mode = ssl.CERT_NONE

    def one(i, attempt=0):
        r = chk.rng("q", i)
        tls = r.random() < 0.15
        src = r.choice(["127.0.0.1", "127.0.0.2", "127.1.2.3", "127.255.255.254"])
        c = http.Conn(port=tport if tls else srv.port, src=src, timeout=60)
        lport = c.s.getsockname()[1]
        if tls:
            c.s = ctx.wrap_socket(c.s, server_hostname="test1.ssl")
        try:
            for step in range(r.choice([1, 2, 4])):
                rid = "e%d_%d_%d" % (i, step, attempt)
                kind = r.choice(["proxy", "fastcgi", "fastcgi", "scgi"])
                route = r.choice(["", "", "set", "set", "add", "auth"])
                path = "/%s%s/%s" % (kind, route, rid)
                q = r.choice(["", "a=b", "REMOTE_ADDR=1.1.1.1&HTTPS=on"])
                tgt = path + ("?" + q if q else "")
                method = r.choice(["GET", "POST", "POST", "PUT"])
                body = None if method == "GET" else r.randbytes(r.choice([0, 1, 100, 5000]))
                hs = []
                for _ in range(r.randrange(0, 9)):
                    nm = r.choice(SERVER_VARS + list(setenv) * 2)
                    name = variants(r, nm)
                    if name.lower() in ("content-length", "host", "connection", "expect", "upgrade", "te", "transfer-encoding"):
                        continue
                    v = r.choice(["evil", "1.2.3.4", "on", "https", "admin", "", "evil, evil2", "99"])
                    for _ in range(r.choice([1, 1, 2, 3])):
                        hs.append((name if r.random() < 0.7 else name.swapcase(), v))
                for _ in range(r.randrange(0, 4)):
                    hs.append((r.choice(["X-Forwarded-For", "x-forwarded-for", "X-Forwarded-Proto", "X-FORWARDED-PROTO", "X-Forwarded-Host", "Forwarded", "X-Real-IP", "Content-Type", "X-Verified", "X_Verified",
                                         "X-User", "X.User", "Proxy-Connection", "Remote-User"]), r.choice(["6.6.6.6", "https", "evil", "a/b", "for=6.6.6.6"])))
                user = None
                if route == "auth":
                    user = r.choice(["alice", "bob"])
                    hs.append(("Authorization", "Basic " + base64.b64encode(("%s:%s" % (user, {"alice": "secret", "bob": "hunter2"}[user])).encode()).decode()))
                r.shuffle(hs)
                host = r.choice([b"www.example.com", b"localhost:81", b"EXAMPLE.org.", b"10.0.0.1"])
                bk.set(rid, [("send", b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")] if kind == "proxy" else [("send", b"Status: 200\r\n\r\nok"), ("close",)] if kind == "scgi" else [("send", b"Status: 200\r\n\r\nok"), ("end", 0, 0)])
                c.send(http.build_request(method, tgt, hs, body, "1.1", host))
                rsp = c.read_response(method)
                recs = bk.take(rid)
                wit = {"headers": hs, "kind": kind, "route": route, "tls": tls, "src": src, "status": rsp.status}
                if rsp.status != 200 or len(recs) != 1:
                    return ("answer", "expected one backend request and 200, got %d / %d" % (len(recs), rsp.status), wit)
                rec = recs[0]
                sent = [(k.encode(), v.encode()) for k, v in hs]
                if kind == "proxy":
                    wit["seen"] = rec.headers
                    if rec.all(b"x-forwarded-for") != [src.encode()]:
                        chk.violation("x-forwarded-for", "backend got X-Forwarded-For %r, client is %s" % (rec.all(b"x-forwarded-for"), src), wit)
                    if rec.all(b"x-forwarded-proto") != [b"https" if tls else b"http"]:
                        chk.violation("x-forwarded-proto", "backend got X-Forwarded-Proto %r (tls=%s)" % (rec.all(b"x-forwarded-proto"), tls), wit)
                    if rec.all(b"content-length") != ([] if method == "GET" else [b"%d" % len(body)]) and method != "GET":
                        chk.violation("proxy-length", "backend got Content-Length %r" % rec.all(b"content-length"), wit)
                    names = {k.lower() for k, v in sent} | {b"host", b"x-forwarded-for", b"x-forwarded-proto", b"content-length", b"connection"}
                    extra = [k for k, v in rec.headers if k.lower() not in names]
                    if extra:
                        chk.violation("proxy-extra", "backend got headers the client never sent: %r" % extra, wit)
                    chk.ok(kind=kind, route=route, tls=tls)
                    continue
                el = rec.envlist
                wit["seen"] = el
                h = host.decode().lower().split(":")[0].rstrip(".")
                exp = {b"SERVER_NAME": h, b"GATEWAY_INTERFACE": "CGI/1.1", b"SERVER_PORT": str(tport if tls else srv.port), b"SERVER_ADDR": "127.0.0.1", b"REMOTE_PORT": str(lport), b"REMOTE_ADDR": src,
                       b"SCRIPT_NAME": path, b"PATH_INFO": "", b"SCRIPT_FILENAME": root + path, b"DOCUMENT_ROOT": root, b"REQUEST_URI": tgt, b"QUERY_STRING": q, b"REQUEST_METHOD": method,
                       b"REDIRECT_STATUS": "200", b"SERVER_PROTOCOL": "HTTP/1.1", b"REQUEST_SCHEME": "https" if tls else "http", b"CONTENT_LENGTH": str(len(body or b""))}
                exp = {k: v.encode() for k, v in exp.items()}
                if tls:
                    exp[b"HTTPS"] = b"on"
                if user:
                    exp[b"REMOTE_USER"] = user.encode()
                    exp[b"AUTH_TYPE"] = b"Basic"
                if kind == "scgi":
                    exp[b"SCGI"] = b"1"
                if route == "set":
                    exp.update(setenv)
                if route == "add":
                    exp[b"HTTP_X_VERIFIED"] = b"srv-verified"
                got = {}
                for k, v in el:
                    got.setdefault(k, []).append(v)
                for k, v in exp.items():
                    if got.get(k) != [v] and not (k in (b"SCRIPT_FILENAME", b"DOCUMENT_ROOT") and len(got.get(k, [])) == 1 and got[k][0].rstrip(b"/").replace(b"//", b"/") == v.rstrip(b"/")):
                        chk.violation("variable:%s" % k.decode(), "%s backend got %s = %r instead of once %r" % (kind, k.decode(), got.get(k), v), wit)
                fromhdr = {cgi_name(k): None for k, v in sent}
                for k in got:
                    if k in exp or k == b"SERVER_SOFTWARE":
                        if k == b"SERVER_SOFTWARE" and (len(got[k]) != 1 or not got[k][0].startswith(b"lighttpd/2")):
                            chk.violation("variable:SERVER_SOFTWARE", "got %r" % got[k], wit)
                        continue
                    if k in (b"HTTP_HOST", b"HTTP_CONTENT_LENGTH"):
                        continue
                    if (k != b"CONTENT_TYPE" and not k.startswith(b"HTTP_")) or k not in fromhdr:
                        chk.violation("unexpected-variable", "%s backend got variable %s = %r which neither server nor configuration set" % (kind, k.decode("latin-1"), got[k]), wit)
                        continue
                    want = [v.strip() for k2, v in sent if cgi_name(k2) == k]
                    if got[k] != want:
                        chk.violation("header-variable", "%s = %r, sent headers %r" % (k.decode("latin-1"), got[k], want), wit)
                if kind == "scgi" and el[0][0] != b"CONTENT_LENGTH":
                    chk.violation("scgi-order", "first SCGI variable is %r" % el[0][0], wit)
                chk.ok(kind=kind, route=route, tls=tls, step=step)
        except (http.Timeout, http.Closed) as e:
            return ("noanswer", repr(e), {"i": i})
        finally:
            c.close()
        return None

    def twice(i):
        v = one(i)
        if v:
            v2 = one(i, 1)
            if v2:
                chk.violation(*v2)
            else:
                chk.inconcl(v[1])
    check.parallel(10, twice, range(chk.n(8000)))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P13", rule="one evaluation = one request with hostile headers; all variables/headers received by the recording backend are compared with the values the server itself had to determine; distinct = backend kinds, routes, tls")
    check.run(c, run, min_evals=1500)
