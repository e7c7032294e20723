"""P05: every response is a well-formed, self-delimiting HTTP message that matches the request that caused it.

Oracle: strict client-side parser (vf/http.py) + a sentinel request on the same connection that must be answered in sync."""
import os
import re
import time

from vf import backends, build, bwork, check, http, server

DATE = re.compile(rb"^(Mon|Tue|Wed|Thu|Fri|Sat|Sun), \d\d (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) \d{4} \d\d:\d\d:\d\d GMT$")


def run(chk):
    build.build("asan")
    www = os.path.join(chk.scratch, "www")
    os.makedirs(www + "/d")
    big = bytes(range(256)) * 1200
    open(www + "/big.bin", "wb").write(big)
    open(www + "/a.txt", "wb").write(b"hello world\n" * 100)
    open(www + "/empty.txt", "wb").write(b"")
    open(www + "/one.txt", "wb").write(b"1")
    open(www + "/d/f", "wb").write(b"x")
    bk = bwork.Backends(chk)
    conf = """docroot "%s"; keepalive.timeout 60; index ("index.html"); 
if req.path =^ "/rd" { redirect "http://other/%%{req.path}"; }
else if req.path =^ "/ok/" { respond 200 => "sentinel:%%{req.path}"; }
else if req.path =^ "/nb/" { respond 200; }
else if req.path =^ "/st/" { %s }
else if req.path =^ "/z" {
	if req.path =^ "/zz/" { docroot "%s"; alias "/zz" => "%s"; static; } else { %s }
	deflate ["types" => ("text/", "")];
} else if req.path =^ "/proxy" or req.path =^ "/fastcgi" or req.path =^ "/scgi" {
	%s
} else { dirlist; static; }
""" % (www, "\n".join('if req.path == "/st/%d" { respond %d => "status body %d"; }' % (s, s, s) for s in (200, 201, 202, 203, 301, 302, 303, 400, 401, 403, 404, 405,
                                                                                         409, 410, 418, 500, 501, 502, 503, 504, 204, 205, 304)), www, www,
       bk.config("", "").replace("/proxy/", "/zproxy/").replace("/fastcgi/", "/zfastcgi/").replace("/scgi/", "/zscgi/"), bk.config())
    conf = conf.replace('if req.path =^ "/proxy" or req.path =^ "/fastcgi" or req.path =^ "/scgi"', 'if req.path =~ "^/(proxy|fastcgi|scgi)/"')
    conf = conf.replace('deflate ["types" => ("text/", "")];', "deflate;")
    srv = server.Server(chk, conf, modules=["mod_proxy", "mod_fastcgi", "mod_scgi", "mod_deflate", "mod_dirlist", "mod_redirect"], workers=3,
                        setup="").start()

    STATI = [200, 200, 200, 200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 304, 307, 400, 401, 403, 404, 405, 406, 410, 416, 418, 422, 500, 502, 503, 599]

    def one(i, attempt=0):
        r = chk.rng("req", i)
        c = http.Conn(port=srv.port, timeout=20)
        trace = []
        try:
            for step in range(r.randrange(1, 6)):
                rid = "r%d_%d_%d" % (i, step, attempt)
                method = r.choice(["GET", "GET", "GET", "HEAD", "POST", "PUT", "OPTIONS", "DELETE"])
                version = r.choice(["1.1", "1.1", "1.1", "1.0"])
                hs = []
                want_close = version == "1.0"
                cx = r.random()
                if cx < 0.1:
                    hs.append(("Connection", "close"))
                    want_close = True
                elif cx < 0.25 or (version == "1.0" and cx < 0.8):
                    hs.append(("Connection", "keep-alive"))
                    want_close = False
                if r.random() < 0.4:
                    hs.append(("Accept-Encoding", r.choice(["gzip", "deflate", "bzip2", "gzip, deflate", "identity"])))
                if r.random() < 0.25:
                    hs.append(("Range", r.choice(["bytes=0-0", "bytes=5-", "bytes=-3", "bytes=0-1,3-4", "bytes=900000-", "bytes=a-b", "bytes=4-2"])))
                if r.random() < 0.1:
                    hs.append(("If-None-Match", "*"))
                body = None
                if method in ("POST", "PUT"):
                    body = b"x" * r.choice([0, 3, 3000])
                expect100 = body is not None and version == "1.1" and r.random() < 0.3
                if expect100:
                    hs.append(("Expect", "100-continue"))
                src = r.choice(["static", "st", "ok", "nb", "rd", "dir", "404", "bk", "bk", "bk", "zbk", "zstatic", "bad"])
                expect_body = None
                if src == "static":
                    f = r.choice(["big.bin", "a.txt", "empty.txt", "one.txt"])
                    target = "/" + f
                elif src == "zstatic":
                    target = "/zz/" + r.choice(["big.bin", "a.txt", "empty.txt", "one.txt"])
                elif src == "st":
                    target = "/st/%d" % r.choice([200, 201, 204, 205, 301, 304, 401, 403, 404, 405, 410, 418, 500, 503])
                elif src == "ok":
                    target = "/ok/" + rid
                    expect_body = ("sentinel:" + target).encode()
                elif src == "nb":
                    target = "/nb/" + rid
                elif src == "rd":
                    target = "/rd" + rid
                elif src == "dir":
                    target = r.choice(["/d", "/d/", "/"])
                elif src == "404":
                    target = "/nothing" + rid
                elif src == "bad":
                    target = r.choice(["/x%00y", "*", "/..%2f..%2f", "//", "/?"])
                else:
                    kind = r.choice(["proxy", "fastcgi", "scgi"])
                    target = "/%s%s/%s" % ("z" if src == "zbk" else "", kind, rid)
                    st = r.choice(STATI)
                    n = r.choice([0, 0, 1, 5, 100, 3000, 70000])
                    data = (b"%s:" % rid.encode() * (n // 5 + 1))[:n]
                    fr = r.choice(["length", "chunked", "close"])
                    if method == "HEAD" or st in (204, 304):
                        sent = b""
                        fr = r.choice(["length", "none"])
                    else:
                        sent = data
                    if st == 205:
                        sent = data = b""
                    nobody = method == "HEAD" or st in (204, 205, 304)
                    h = b"Content-Type: text/plain\r\nX-Rid: %s\r\n" % rid.encode()
                    hasdate = r.random() < 0.2
                    if hasdate:
                        h += b"Date: Tue, 15 Nov 1994 08:12:31 GMT\r\nServer: stub\r\n"
                    if fr == "length":
                        h += b"Content-Length: %d\r\n" % len(data)
                    if kind == "proxy":
                        if fr == "chunked":
                            h += b"Transfer-Encoding: chunked\r\n"
                            payload = bwork.chunk_encode(r, sent)
                        else:
                            payload = sent
                        ver = r.choice([b"1.1", b"1.1", b"1.0"]) if fr != "chunked" else b"1.1"
                        if r.random() < 0.5 or fr in ("close", "none") or ver == b"1.0":
                            h += b"Connection: close\r\n"
                        head = b"HTTP/%s %d Foo\r\n" % (ver, st) + h + b"\r\n"
                        fin = [("close",)] if fr in ("close", "none") or ver == b"1.0" else []
                        if r.random() < 0.1:
                            head = b"HTTP/1.1 %d X\r\nX-Interim: 1\r\n\r\n" % r.choice([100, 102]) + head
                        script = bwork.segment(r, head + payload) + fin
                    else:
                        head = b"Status: %d Foo\r\n" % st + h + b"\r\n"
                        script = bwork.segment(r, head + sent) + ([("end",)] if kind == "fastcgi" else [("close",)])
                    bk.set(rid, script)
                    if not nobody and (st < 400 or n > 0):
                        expect_body = data
                        enc_allowed = src == "zbk"
                trace.append((method, target, version, hs))
                msg = http.build_request(method, target, hs, body, version, b"localhost")
                if body and r.random() < 0.4:
                    c.send_segments(msg, [r.randrange(len(msg) - len(body), len(msg))], r.choice([0.001, 0.01, 0.05]))
                else:
                    c.send(msg)
                wit = {"trace": trace, "script": repr(bk.scripts.get(rid))[:3000]}
                try:
                    rsp = c.read_response(method)
                except http.ProtoError as e:
                    chk.violation("proto:" + re.sub(r"[0-9]+|b'.*", "#", str(e))[:80] + ":" + src, "malformed response to %s %s: %s" % (method, target, e), wit)
                    return
                except http.Closed as e:
                    return "connection closed without a response to %s %s HTTP/%s (%s)" % (method, target, version, e), wit
                except http.Timeout as e:
                    return "no complete response to %s %s HTTP/%s: %s" % (method, target, version, e), wit
                wit["response"] = repr(rsp)
                if (len(rsp.interim) != (1 if expect100 else 0) and not (expect100 and rsp.status >= 400 and not rsp.interim)) or any(x.status != 100 for x in rsp.interim):
                    chk.violation("interim", "interim responses %r, expected %s" % (rsp.interim, "one 100" if expect100 else "none"), wit)
                    return
                chk.count("interim", len(rsp.interim))
                if src in ("bk", "zbk"):
                    bk.take(rid)
                if not rsp.complete:
                    chk.violation("incomplete:" + src, "response to %s %s ends before its announced end" % (method, target), wit)
                    return
                if (b"HTTP/1." + version[-1].encode()) != rsp.raw_head[:8]:
                    chk.violation("version", "HTTP/%s request answered with %r" % (version, rsp.raw_head[:8]), wit)
                    return
                for name in (b"date", b"server", b"content-type", b"content-length", b"etag", b"last-modified"):
                    if len(rsp.all(name)) > 1:
                        chk.violation("dup-header:%s" % name.decode(), "header %s sent twice" % name.decode(), wit)
                        return
                if not DATE.match(rsp.get(b"date", b"")):
                    chk.violation("date", "no valid Date header: %r" % rsp.get(b"date"), wit)
                    return
                if rsp.status == 204 and rsp.get(b"content-length") is not None:
                    chk.violation("cl-in-204", "Content-Length in a 204 response", wit)
                    return
                ce = rsp.get(b"content-encoding")
                if expect_body is not None and method != "HEAD" and not ce and rsp.body != expect_body and not any(k == "Range" for k, _ in hs):
                    chk.violation("body:" + src, "body of %s %s is not what was produced (%d vs %d bytes)" % (method, target, len(rsp.body), len(expect_body)), wit)
                    return
                if rsp.framing == "close" and rsp.keepalive():
                    # the strict parser had to read until close although the message promised to keep the connection
                    chk.violation("undelimited:%s" % rsp.status, "response %d to %s has no length although the connection persists" % (rsp.status, target), wit)
                    return
                chk.ok(src=src, framing=rsp.framing, status=rsp.status, method=method, version=version, enc=ce)
                if want_close and rsp.keepalive():
                    chk.violation("keepalive-unwanted", "client asked for close, server promised keep-alive: %s" % target, wit)
                    return
                if version == "1.1" and not want_close and not body and src != "bad" and rsp.framing != "close" and not rsp.keepalive():
                    chk.violation("keepalive-refused:%d" % rsp.status, "connection closed although the client asked to keep it: %s %s -> %d" % (method, target, rsp.status), wit)
                    return
                if not rsp.keepalive() or c.eof:
                    if c.buf:
                        chk.violation("trailing", "bytes after the final response: %r" % bytes(c.buf[:100]), wit)
                        return
                    # the connection really has to end
                    c.timeout = 60
                    try:
                        rest = c.read_all()
                    except http.Timeout:
                        return "connection announced close but stays open after %s %s" % (method, target), wit
                    if rest:
                        chk.violation("trailing", "bytes after the final response: %r" % rest[:100], wit)
                    return
                # sentinel: still in sync?
                c.send(http.build_request("GET", "/ok/S" + rid, [], None, "1.1", b"localhost"))
                try:
                    s = c.read_response("GET")
                except http.ProtoError as e:
                    chk.violation("desync:%s:%s" % (src, rsp.status), "connection out of sync after %s %s (%d): %s" % (method, target, rsp.status, e), wit)
                    return
                except http.Closed:
                    if rsp.minor == 0:
                        return "kept-alive connection closed (HTTP/1.0) after %s %s" % (method, target), wit
                    return "kept-alive connection closed after %s %s -> %d" % (method, target, rsp.status), wit
                except http.Timeout:
                    return "no answer to the sentinel after %s %s" % (method, target), wit
                if s.status != 200 or s.body != b"sentinel:/ok/S" + rid.encode():
                    chk.violation("desync:%s:%s" % (src, rsp.status), "connection out of sync after %s %s (%d): sentinel got %r %r" % (method, target, rsp.status, s, s.body[:80]), wit)
                    return
                chk.ok(sentinel=src)
        finally:
            c.close()

    def twice(i):
        x = one(i)
        if x:
            y = one(i, 1)
            if y:
                chk.violation("noresponse:" + re.sub(r"r\d+_\d+_\d+|\d{4,}", "#", y[0])[:60], y[0], y[1])
            else:
                chk.inconcl(x[0])
        if i < 6:
            chk.sample("conn %d ok" % i)
    check.parallel(12, twice, range(chk.n(9000)))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P05", rule="one evaluation = one response accepted by the strict parser with all header/framing rules checked, or one in-sync sentinel; "
                    "distinct = handler kinds, framings, statuses, methods, versions, encodings observed")
    check.run(c, run, min_evals=1000)
