"""P04: the answers depend on the bytes sent, not on how they were cut into packets (client side and backend side)."""
import os
import threading
import zlib

from vf import backends, build, bwork, check, http, server

IGNORE = (b"date", b"content-length", b"transfer-encoding", b"connection", b"server")


def run(chk):
    build.build("asan")
    root = os.path.join(chk.scratch, "www")
    os.makedirs(root + "/d")
    r0 = chk.rng("files")
    for n, sz in (("a.txt", 10), ("b.html", 5000), ("c.bin", 200000), ("d/x.txt", 1)):
        with open(os.path.join(root, n), "wb") as f:
            f.write(r0.randbytes(sz))
        os.utime(os.path.join(root, n), (10 ** 9, 10 ** 9))
    bk = bwork.Backends(chk)
    # two servers with the same configuration but different buffer settings: the answers still have to agree
    conf = """docroot "%s"; index ["x.txt"]; keepalive.requests 100000;
%s
%s
if req.path =^ "/z/" { rewrite "^/z(/.*)$" => "$1"; docroot "%s"; static; deflate; }
else if req.path =^ "/echo" { header.add "X-Echo" => "[%%{req.header[X-A]}]"; respond 200 => "%%{req.path}|%%{req.query}|%%{req.host}|%%{req.raw_path}"; }
else if req.path =^ "/rd" { redirect "/to%%{req.path}"; }
else { dirlist; static; }
""" % (root, bk.config(), bk.config(suffix="n", pre="buffer_request_body false;"), root)
    mods = ["mod_proxy", "mod_fastcgi", "mod_scgi", "mod_deflate", "mod_rewrite", "mod_redirect", "mod_dirlist"]
    srv = server.Server(chk, conf, modules=mods, workers=3).start()

    def backend_answer(r, rid, kind, method):
        st = r.choice([200, 200, 200, 201, 302, 404, 500, 204, 304])
        n = r.choice([0, 1, 10, 100, 3000, 20000, 66000])
        if st >= 400 and method == "HEAD":
            st = 200        # an empty error response may be replaced by an error page, depending on when its end is seen
        body = b"" if method == "HEAD" or st in (204, 304) else (rid.encode() + b"-") * (n // 8 + 1)
        hs = [b"X-R: " + rid.encode()]
        for _ in range(r.randrange(0, 5)):
            hs.append(b"X-%d: %s" % (r.randrange(5), bytes(r.choice(b"abc ;,=\"'") for _ in range(r.randrange(1, 40))).replace(b'"', b"") or b"v"))
        eol = r.choice([b"\r\n", b"\r\n", b"\n"])
        fold = r.random() < 0.1
        if fold:
            hs.append(b"X-Fold: a" + eol + r.choice([b" ", b"\t"]) + b"b")
        if kind == "proxy":
            out = b"HTTP/1.1 %d Foo" % st + eol
            if r.random() < 0.15:
                out = b"HTTP/1.1 100 Continue" + eol + b"X-I: 1" + eol + eol + out
            fr = r.choice(["length", "chunked", "close"])
            if method == "HEAD" or st in (204, 304):
                fr = "length" if st == 304 else "close"
                hs.append(b"Connection: close")
            elif fr == "length":
                hs.append(b"Content-Length: %d" % len(body))
            elif fr == "chunked":
                hs.append(b"Transfer-Encoding: chunked")
                body = bwork.chunk_encode(r, body)
            else:
                hs.append(b"Connection: close")
            data = out + eol.join(hs) + eol + eol + body
            return [data], [("close",)] if fr == "close" else []
        out = r.choice([b"Status: %d Foo" % st + eol, b"HTTP/1.1 %d Foo" % st + eol])
        if r.random() < 0.3 and method != "HEAD":
            hs.append(b"Content-Length: %d" % len(body)) if st not in (204, 304) else None
        data = out + eol.join(hs) + eol + eol + body
        if kind == "scgi":
            return [data], [("close",)]
        # fastcgi: fixed records, random record sizes
        recs = []
        pos = 0
        while pos < len(data):
            k = r.choice([1, 2, 7, 8, 100, 1000, 8192, 65535])
            recs.append(backends.fcgi_record(6, 1, data[pos:pos + k], r.choice([0, 0, 1, 7, 255])))
            if r.random() < 0.1:
                recs.append(backends.fcgi_record(7, 1, b"stderr", r.choice([0, 3])))
            pos += k
        recs.append(backends.fcgi_record(6, 1, b"", 0))
        recs.append(backends.fcgi_record(3, 1, b"\0" * 8, r.choice([0, 8])))
        return [b"".join(recs)], []

    def cutlist(r, n, mode, hot):
        if mode == "one":
            return []
        if mode == "bytes":
            if n <= 600:
                return list(range(1, n))
            a = r.randrange(0, n - 300)
            return sorted(set(list(range(a + 1, a + 300)) + [r.randrange(1, n) for _ in range(5)]))
        if mode == "hot" and hot:
            c = set()
            for _ in range(r.randrange(1, 6)):
                c.add(min(n - 1, max(1, r.choice(hot) + r.choice([-3, -2, -1, 0, 1, 2, 3]))))
            return sorted(c)
        return sorted({r.randrange(1, n) for _ in range(r.randrange(1, 10))}) if n > 1 else []

    def gen(r, i):
        """-> (stream bytes, [method...], {rid: answer})"""
        out = []
        methods = []
        answers = {}
        refused = False
        n = r.choice([1, 1, 2, 3, 5])
        for j in range(n):
            last = j == n - 1
            rid = "t%dx%d" % (i, j)
            kind = r.choice(["static", "static", "range", "z", "echo", "echo", "rd", "dir", "404", "proxy", "fastcgi", "scgi", "proxyn", "fastcgin", "bad" if last else "echo"])
            method = r.choice(["GET"] * 4 + ["HEAD"])
            hs = []
            body = None
            chunked = None
            if kind == "static":
                t = r.choice(["/a.txt", "/b.html", "/c.bin", "/d/x.txt", "/d/", "/d"])
            elif kind == "range":
                t = r.choice(["/b.html", "/c.bin"])
                hs.append(("Range", r.choice(["bytes=0-9", "bytes=-100", "bytes=5-5,7-9,100-4000", "bytes=999999-", "bytes=x"])))
            elif kind == "z":
                t = "/z/b.html"
                hs.append(("Accept-Encoding", r.choice(["gzip", "deflate", "bzip2", "identity"])))
            elif kind == "echo":
                t = "/echo/" + rid + r.choice(["", "%41b", "/../x", "?q=%20", "//y"])
                hs.append(("X-A", r.choice(["v", "", 'q "u\\"o" x', "a  b", "tab\tx"])))
            elif kind == "rd":
                t = "/rd/" + rid
            elif kind == "dir":
                t = "/"
            elif kind == "404":
                t = "/none/" + rid
            elif kind == "bad":
                out.append(r.choice([b"GET /echo HTTP/1.1\r\n\r\n", b"GET /echo HTTP/1.1\r\nHost: a\r\nX: \x01\r\n\r\n", b"GET /echo HTTP/1.1\r\nHost: a\r\nX Y: 1\r\n\r\n", b"GET  /echo HTTP/1.1\r\n\r\n", b"GET /\xff HTTP/1.1\r\nHost: a\r\n\r\n",
                                     b"POST /echo HTTP/1.1\r\nHost: a\r\n\r\n", b"GET /echo HTTP/3.1\r\nHost: a\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nExpect: x\r\n\r\n", b"GET /" + b"a" * 8300 + b" HTTP/1.1\r\nHost: a\r\n\r\n", b"GET /echo HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n",
                                     b"GET / HTTP/1.1\r\nHost: a\r\nX: \"\r\n\r\n"]))
                methods.append("GET")
                refused = True
                continue
            else:
                t = "/%s/%s" % (kind, rid)
                method = r.choice(["GET", "POST", "POST", "PUT", "HEAD"])
                if method in ("POST", "PUT"):
                    body = r.randbytes(r.choice([0, 1, 10, 300, 5000, 30000]))
                    if kind in ("proxy", "fastcgi", "scgi") and r.random() < 0.5:
                        chunked = [r.choice([1, 3, 15, 16, 255, 4000]) for _ in range(r.randrange(1, 6))]
                answers[rid] = backend_answer(r, rid, kind.rstrip("n"), method)
                if kind.endswith("n") and method != "HEAD" and False:
                    pass
            if r.random() < 0.3:
                hs.append(("X-Long", "y" * r.choice([10, 500, 5000, 16000])))
            if last:
                hs.append(("Connection", "close"))
            m = http.build_request(method, t, hs, body, "1.1", b"localhost", chunked)
            if r.random() < 0.1:
                m = b"\r\n" + m
            if r.random() < 0.1 and body is None:
                m = m.replace(b"\r\n", b"\n")
            out.append(m)
            methods.append(method)
        return b"".join(out), methods, answers, refused

    def norm(rsp, method):
        body = rsp.body
        ce = rsp.get(b"content-encoding")
        if ce and method != "HEAD" and body:
            try:
                body = b"Z" + (zlib.decompress(body, 31) if ce == b"gzip" else zlib.decompress(body, -15) if ce == b"deflate" else __import__("bz2").decompress(body))
            except Exception as e:
                body = b"undecodable: " + repr(e).encode()
        return (rsp.status, tuple((k.lower(), v) for k, v in rsp.headers if k.lower() not in IGNORE), body, rsp.complete)

    def play(data, methods, answers, r, mode, bmode):
        rec = []
        for rid, (payload, fin) in answers.items():
            pl = payload[0]
            hot = [pl.find(b"\r\n\r\n") + 2, pl.find(b"\n\n") + 1, 8, len(pl) - 4, pl.find(b"\r\n0\r\n"), 16]
            cuts = cutlist(r, len(pl), bmode, [h for h in hot if h > 0]) if len(pl) > 1 else []
            script = []
            pos = 0
            for c_ in cuts + [len(pl)]:
                if c_ > pos:
                    script.append(("raw" if b"\x01" == pl[:1] else "send", pl[pos:c_]))
                    if bmode != "one":
                        script.append(("sleep", r.choice([0, 0, 0.0005, 0.002])))
                    pos = c_
            script += fin

            def h(rq, script=script, rid=rid):
                t = rq.target if rq.env is None else None
                rec.append((rid, rq.method if rq.env is None else rq.env.get(b"REQUEST_METHOD"), rq.body, t))
                return script
            bk.set(rid, h)
        c = http.Conn(port=srv.port, timeout=40)
        hot = []
        p = 0
        while True:
            p = data.find(b"\n", p)
            if p < 0 or len(hot) > 400:
                break
            hot.append(p)
            p += 1
        cuts = cutlist(r, len(data), mode, hot)
        delay = 0 if mode == "one" else r.choice([0, 0.0003, 0.001, 0.004]) if len(cuts) < 50 else 0.0002
        # send in a thread: answers arrive while we are still sending
        sent = []
        th = threading.Thread(target=lambda: sent.append(quiet(c.send_segments, data, cuts, delay)), daemon=True)
        th.start()
        res = []
        try:
            for m in methods:
                res.append(norm(c.read_response(m), m))
            rest = c.read_all()
            res.append(("end", rest))
        except http.Closed as e:
            res.append(("closed",))
        except http.ProtoError as e:
            res.append(("proto", str(e)[:100]))
        except http.Timeout as e:
            res.append(("timeout",))
        th.join(60)
        broken = c.reset or not (sent and sent[0])
        c.close()
        for rid in answers:
            bk.take(rid)
        return (res, sorted(rec, key=lambda x: x[0])), broken

    def quiet(f, *a):
        try:
            return f(*a)
        except Exception:
            return False

    def prefix(got, ref):
        for k, (a, b) in enumerate(zip(got, ref)):
            if a == b:
                continue
            if k != len(got) - 1 and got[k + 1:] not in ([("closed",)], [("end", b"")]):
                return False
            return a in (("closed",), ("end", b"")) or (len(a) == 4 and len(b) == 4 and not a[3] and a[:2] == b[:2] and b[2].startswith(a[2]))
        return True

    def one(i, attempt=0):
        r = chk.rng("s", i)
        data, methods, answers, refused = gen(r, i)
        ref, _ = play(data, methods, answers, r, "one", "one")
        if ref[0][-1] != ("end", b""):
            return ("reference", "undivided stream not answered completely: %r" % (ref[0][-1],), {"data": data[:3000]})
        k = 0
        for mode, bmode in r.sample([("bytes", "one"), ("random", "one"), ("hot", "one"), ("one", "bytes"), ("one", "random"), ("one", "hot"), ("random", "random"), ("hot", "hot")], 3 if answers else 2):
            if not answers:
                bmode = "one"
                mode = mode if mode != "one" else "random"
            got, broken = play(data, methods, answers, r, mode, bmode)
            if refused and broken and got != ref and prefix(got[0], ref[0]) and got[1] == ref[1][:len(got[1])]:
                # refused while we were still sending: the unread rest makes the kernel reset the connection, which may destroy answers in flight
                chk.count("refused", "reset while sending")
                continue
            if got != ref:
                d = [(a, b_) for a, b_ in zip(got[0], ref[0]) if a != b_] or [("count", len(got[0]), len(ref[0]))]
                what = "backend side" if got[0] == ref[0] else "client side"
                return ("differs:%s" % what, "%s differs when the stream is split (%s/%s): %.600r" % (what, mode, bmode, d[0] if what == "client side" else (got[1], ref[1])),
                        {"data": data[:6000], "answers": {k2: v[0][0][:3000] for k2, v in answers.items()}, "got": got, "ref": ref})
            k += 1
            chk.ok(split="%s/%s" % (mode, bmode), requests=len(methods), backend=",".join(sorted({x.rstrip("0123456789") for x in []})) or len(answers))
        for rr in ref[0][:-1]:
            chk.count("status", rr[0])
        return None

    def twice(i):
        v = one(i)
        if v:
            v2 = one(i, 1)
            if v2:
                chk.violation(*v2)
            else:
                chk.inconcl(v[1])
    check.parallel(14, twice, range(chk.n(4500)))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P04", rule="one evaluation = one byte stream (client and backend side) replayed with another segmentation, every response and every request seen by the backends compared with the undivided run; distinct = segmentation modes, request counts, statuses")
    check.run(c, run, min_evals=1500)
