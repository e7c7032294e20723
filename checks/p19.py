"""P19: compressed responses name an accepted coding, vary on Accept-Encoding and decode to exactly the original content."""
import bz2
import os
import re
import time
import zlib

from vf import build, bwork, check, http, server

CODINGS = ["bzip2", "x-bzip2", "gzip", "x-gzip", "deflate"]


def decode(coding, data):
    """-> bytes; raises on trailing garbage or truncation"""
    if coding in ("gzip", "x-gzip"):
        d = zlib.decompressobj(31)
    elif coding == "deflate":
        d = zlib.decompressobj(15 if data[:1] == b"\x78" and len(data) > 1 and (data[0] * 256 + data[1]) % 31 == 0 else -15)
    else:
        d = bz2.BZ2Decompressor()
    out = d.decompress(data)
    if not d.eof:
        raise ValueError("compressed stream is incomplete")
    if d.unused_data:
        raise ValueError("garbage after the compressed stream")
    return out


def accepted(values):
    """codings the Accept-Encoding values allow explicitly: {coding: True/False/None} None = contradictory or not well-formed"""
    res = {}
    for v in values:
        for el in v.split(","):
            el = el.strip(" \t")
            if not el:
                continue
            parts = [p.strip(" \t") for p in el.split(";")]
            name = parts[0].lower()
            ok = True
            for p in parts[1:]:
                m = re.match(r"^[qQ]=(.*)$", p)
                if m:
                    if re.match(r"^0(\.0{0,3})?$", m.group(1)):
                        ok = False
                    elif not re.match(r"^(0(\.\d{0,3})?|1(\.0{0,3})?)$", m.group(1)):
                        ok = None
                else:
                    ok = None
            if not re.match(r"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$", name):
                # not a token: whatever words it contains
                for w in re.split(r"[^A-Za-z0-9-]+", name):
                    res.setdefault(w, None)
                continue
            if name in res and res[name] != ok:
                ok = None
            res[name] = ok
    return res


def run(chk):
    build.build("asan")
    root = os.path.join(chk.scratch, "www")
    os.makedirs(root)
    r0 = chk.rng("files")
    contents = {}
    for i, (sz, kind) in enumerate([(0, "t"), (1, "t"), (10, "t"), (100, "z"), (4095, "t"), (4096, "r"), (4097, "t"), (16384, "r"), (16385, "t"), (65536, "t"), (65537, "r"), (262143, "t"), (262145, "r"), (1000003, "t"), (3000000, "z")]):
        data = r0.randbytes(sz) if kind == "r" else b"\0" * sz if kind == "z" else bytes(r0.choices(b"abcdefgh \n<>", k=sz))
        contents["f%d" % i] = data
        with open(os.path.join(root, "f%d" % i), "wb") as f:
            f.write(data)
        os.utime(os.path.join(root, "f%d" % i), (1500000000, 1500000000))
    bk = bwork.Backends(chk)
    opts = {"": "", "lvl9": '["compression-level" => 9]', "small": '["blocksize" => 1000, "output-buffer" => 20]', "tiny": '["blocksize" => 333, "output-buffer" => 5, "compression-level" => 6]',
            "gz": '["encodings" => "gzip"]', "def": '["encodings" => "deflate,x-gzip", "output-buffer" => 100000, "blocksize" => 100000]', "bz": '["encodings" => "bzip2,gzip", "output-buffer" => 1]'}
    allowed = {"": CODINGS, "lvl9": CODINGS, "small": CODINGS, "tiny": CODINGS, "gz": ["gzip"], "def": ["deflate", "x-gzip"], "bz": ["bzip2", "gzip"]}
    conf = 'keepalive.requests 100000; docroot "%s"; mime_types [ "" => "text/plain" ];\n' % root
    for o, txt in opts.items():
        conf += 'if req.path =^ "/s%s/" { alias "/s%s/" => "%s/"; static; deflate %s; }\n' % (o, o, root, txt)
        conf += 'if req.path =~ "^/(proxy|fastcgi|scgi)%s/" { %s deflate %s; }\n' % (o or "x", bk.config(o or "x"), txt)
    conf += 'if req.path =^ "/r/" { respond 200 => "%{req.path} aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"; deflate; }\n'
    conf += 'if req.path =^ "/e/" { respond 403; deflate; }\n'
    srv = server.Server(chk, conf, modules=["mod_deflate", "mod_proxy", "mod_fastcgi", "mod_scgi"], workers=4).start()
    etags = {}
    # resources seen compressed for some client, and seen plain without "Vary: Accept-Encoding" for another one: a shared
    # cache would give the plain variant to everybody (or the compressed one to clients not accepting it)
    seen_coded, seen_novary = set(), {}

    def ae(r):
        k = r.randrange(12)
        if k == 0:
            return []
        if k < 4:
            return [r.choice(CODINGS)]
        if k < 6:
            return [", ".join(r.sample(CODINGS + ["identity", "br", "compress", "*", "zstd"], r.randrange(1, 6)))]
        if k < 9:
            out = []
            for c in r.sample(CODINGS + ["identity", "*", "br"], r.randrange(1, 5)):
                q = r.choice(["", ";q=1", ";q=0.5", "; q=0", ";q=0", ";q=0.0", ";q=0.000", " ; q=0", ";q=0.001", ";Q=0", ";q=1.000"])
                out.append(c + q)
            return [r.choice([",", ", ", " , "]).join(out)]
        if k == 9:
            return [r.choice(["gzipfoo", "xgzip", "gzip-foo", "foo gzip", "not-gzip", "deflated", "bzip2x", "x-gzipx", "GZIP", "Deflate", "gzip;q", "gzip;x=1", "gzip ;q=0", "*", "*;q=0", "", ",", ";", "gzip;q=0,deflate", "deflate;q=0;gzip", "gzip;q=0.,identity"])]
        if k == 10:
            return [r.choice(CODINGS), r.choice(CODINGS) + ";q=0"]
        return [r.choice(["identity", "br", "compress", "identity;q=0", "", "zstd, br"])]

    def one(i, attempt=0):
        r = chk.rng("q", i)
        c = http.Conn(port=srv.port, timeout=90, rcvbuf=r.choice([None, None, None, 4096]))
        try:
            for step in range(r.choice([1, 2, 4])):
                rid = "z%d_%d_%d" % (i, step, attempt)
                o = r.choice(list(opts))
                src = r.choice(["static", "static", "proxy", "fastcgi", "scgi", "respond", "error"])
                method = r.choice(["GET", "GET", "GET", "GET", "HEAD", "POST"])
                acc = ae(r)
                hs = [("Accept-Encoding", a) for a in acc]
                if r.random() < 0.1:
                    hs.append((r.choice(["TE", "X-Accept-Encoding", "Accept"]), "gzip"))
                body = None
                status = 200
                want_etag = None
                pre = None
                rng = None
                if src == "static":
                    if method == "POST":
                        method = "GET"
                    fn = r.choice(list(contents))
                    target = "/s%s/%s" % (o, fn)
                    content = contents[fn]
                    if r.random() < 0.15 and len(content) > 10:
                        rng = r.choice(["bytes=0-4", "bytes=-3", "bytes=2-"])
                        hs.append(("Range", rng))
                elif src == "respond":
                    target = "/r/" + rid
                    content = (target + " aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa").encode()
                    o = ""
                    if method == "POST":
                        body = b"x"
                elif src == "error":
                    target = "/e/" + rid
                    content = None
                    o = ""
                    status = 403
                    if method == "POST":
                        body = b"x"
                else:
                    target = "/%s%s/%s" % (src, o or "x", rid)
                    n = r.choice([0, 1, 100, 4096, 5000, 16384, 40000, 200000, 600000])
                    content = r.choice([lambda: r.randbytes(n), lambda: bytes(r.choices(b"abcd\n", k=n)), lambda: b"A" * n])()
                    status = r.choice([200] * 5 + [201, 203, 404, 500, 204, 304, 206])
                    if method == "POST":
                        body = b"x" * r.randrange(10)
                    if status in (204, 304) or method == "HEAD":
                        content = b""
                    if status in (404, 500) and not content:
                        status = 200
                    h = [b"X-R: 1"]
                    if r.random() < 0.4:
                        want_etag = r.choice(['"%s"' % rid, 'W/"%s"' % rid])
                        h.append(b"ETag: " + want_etag.encode())
                    if r.random() < 0.2:
                        pre = r.choice([b"br", b"gzip", b"identity", b"x-custom"])
                        h.append(b"Content-Encoding: " + pre)
                    if r.random() < 0.2:
                        h.append(b"Vary: Cookie")
                    if src == "proxy":
                        fr = r.choice(["length", "chunked", "close"])
                        if method == "HEAD" or status in (204, 304):
                            fr = "close"
                        data = b"HTTP/1.1 %d X\r\n" % status + b"\r\n".join(h + ([b"Content-Length: %d" % len(content)] if fr == "length" else [b"Transfer-Encoding: chunked"] if fr == "chunked" else [b"Connection: close"])) + b"\r\n\r\n"
                        data += bwork.chunk_encode(r, content) if fr == "chunked" else content
                        script = bwork.segment(r, data) + ([("close",)] if fr == "close" else [])
                    else:
                        if r.random() < 0.3 and status not in (204, 304) and method != "HEAD":
                            h.append(b"Content-Length: %d" % len(content))
                        data = b"Status: %d X\r\n" % status + b"\r\n".join(h) + b"\r\n\r\n" + content
                        script = bwork.segment(r, data) + ([("close",)] if src == "scgi" else [("end", 0, 0)])
                    bk.set(rid, script)
                c.send(http.build_request(method, target, hs, body, "1.1", b"localhost"))
                if r.random() < 0.05:
                    time.sleep(0.05)
                rsp = c.read_response(method)
                bk.take(rid)
                wit = {"target": target, "method": method, "headers": hs, "status": rsp.status, "rh": rsp.headers, "pre": pre}
                if not rsp.complete:
                    return ("incomplete", "response to %s (%s) was not complete" % (target, acc), wit)
                exp_status = 206 if rng else status
                if rsp.status != exp_status:
                    return ("status", "%s: expected %d got %d" % (target, exp_status, rsp.status), wit)
                ce = rsp.all(b"content-encoding")
                bodiless = rsp.status in (204, 304) or method == "HEAD"
                if pre:
                    if ce != [pre]:
                        chk.violation("reencoded", "content already encoded as %r was sent with Content-Encoding %r" % (pre, ce), wit)
                    if not bodiless and rsp.body != content:
                        chk.violation("reencoded-body", "already encoded content was changed", wit)
                    chk.ok(source=src, coding="pre")
                    continue
                if len(ce) > 1:
                    chk.violation("several-codings", "Content-Encoding %r" % ce, wit)
                    continue
                acd = accepted(acc)
                if ce:
                    co = ce[0].decode()
                    if rsp.status in (204, 205, 206, 304):
                        chk.violation("bodiless-coded", "Content-Encoding %s on a %d response" % (co, rsp.status), wit)
                    if co not in allowed[o]:
                        chk.violation("not-allowed", "coding %s is not configured for this route (%s)" % (co, allowed[o]), wit)
                    st = acd.get(co, False)
                    if st is False:
                        chk.violation("not-accepted", "sent %s to a client with Accept-Encoding %r" % (co, acc), wit)
                    if not any("accept-encoding" in v.decode("latin-1").lower() for v in rsp.all(b"vary")):
                        chk.violation("vary", "compressed response without Vary: Accept-Encoding (%r)" % rsp.all(b"vary"), wit)
                    if method == "HEAD":
                        if rsp.get(b"content-length") is not None and content and int(rsp.get(b"content-length")) == len(content) and len(content) > 200:
                            chk.violation("head-length", "HEAD announces Content-Encoding with the length of the plain content", wit)
                    else:
                        try:
                            got = decode(co, rsp.body)
                        except Exception as e:
                            chk.violation("undecodable:%s" % co, "%s body of %s does not decode: %s" % (co, target, e), dict(wit, body=rsp.body[:500], n=len(rsp.body)))
                            continue
                        if content is not None and got != content:
                            chk.violation("content:%s" % co, "decoded body has %d bytes, original %d, first difference at %d" % (
                                len(got), len(content), next((k for k, (a, b) in enumerate(zip(got, content)) if a != b), min(len(got), len(content)))), wit)
                        if content is None and got and b"403" not in got:
                            chk.violation("error-page", "decoded error page is %r" % got[:100], wit)
                else:
                    if not bodiless and content is not None and not rng and rsp.body != content:
                        chk.violation("plain", "uncompressed body differs from the original (%d/%d bytes)" % (len(rsp.body), len(content)), wit)
                    if rng and method == "GET" and rsp.body != {"bytes=0-4": content[:5], "bytes=-3": content[-3:], "bytes=2-": content[2:]}[rng]:
                        chk.violation("range", "range body differs", wit)
                    if not bodiless and content is None and rsp.body and b"403" not in rsp.body:
                        chk.violation("error-page", "error page is %r" % rsp.body[:100], wit)
                if src in ("static", "respond") and method != "HEAD" and rsp.status == 200 and (src == "static" or len(rsp.body) > 0):
                    res = target if src == "static" else "respond"
                    if ce:
                        seen_coded.add(res)
                    elif not any("accept-encoding" in v.decode("latin-1").lower() or v.strip() == b"*" for v in rsp.all(b"vary")):
                        seen_novary.setdefault(res, (acc, wit))
                et = rsp.get(b"etag")
                if want_etag is not None and not ce and rsp.status < 400 and et != want_etag.encode():
                    chk.violation("etag-plain", "plain response has entity tag %r, backend sent %r" % (et, want_etag), wit)
                if want_etag is not None and ce and et == want_etag.encode():
                    chk.violation("etag-same", "compressed response carries the entity tag of the plain one", wit)
                if src == "static" and et:
                    key = (target.split("/")[-1], et)
                    prev = etags.setdefault(key, ce[0] if ce else b"plain")
                    if prev != (ce[0] if ce else b"plain"):
                        chk.violation("etag-variants", "entity tag %r used for %s and %s variants" % (et, prev, ce), wit)
                chk.ok(source=src, coding=ce[0].decode() if ce else "none", method=method, options=o, status=rsp.status)
        except (http.Timeout, http.Closed, http.ProtoError) as e:
            return ("noanswer", "%s: %r" % (target, e), {"i": i, "target": target, "headers": hs})
        finally:
            c.close()
        return None

    def twice(i):
        v = one(i)
        if v:
            v2 = one(i, 1)
            if v2:
                chk.violation(*v2)
            else:
                chk.inconcl(v[1])
    check.parallel(12, twice, range(chk.n(3500)))
    for res in sorted(seen_coded & set(seen_novary)):
        chk.violation("vary-plain", "%s is sent compressed to some clients, but the plain answer to Accept-Encoding %r has no Vary: Accept-Encoding" % (res, seen_novary[res][0]), seen_novary[res][1])
    chk.ok(vary="resources with both variants %d" % len(seen_coded))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P19", rule="one evaluation = one response decoded with an independent decompressor and compared with the original content, its coding checked against an independent reading of Accept-Encoding; distinct = sources, codings, methods, options, statuses")
    check.run(c, run, min_evals=1500)
