"""P07: static files and byte ranges are delivered byte for byte, with the right size, type and Content-Range."""
import os
import re
import time

from vf import build, check, http, server

MIME = {".txt": "text/plain", ".html": "text/html; charset=utf-8", ".tar.gz": "application/x-tgz", ".gz": "application/gzip", "README": "text/x-readme", ".min.js": "text/x-min", ".js": "text/javascript",
        "s": "application/x-ends-in-s", ".\xff\xfe": "x/bin", ".TXT": "text/x-upper", ".a.b.c": "x/abc", ".b.c": "x/bc", ".html.gz": "x/htmlgz"}


def mime_of(path):
    """longest configured suffix of the physical path"""
    best = None
    for suf, m in MIME.items():
        sb = suf.encode("latin-1")
        if path.endswith(sb) and (best is None or len(sb) > best[0]):
            best = (len(sb), m)
    return best[1] if best else "application/octet-stream"


def parse_range(v, size):
    """-> None: not a valid byte range header (ignored); 'big': numbers beyond 63 bits (may be ignored); list of satisfiable (a, b)"""
    m = re.match(rb"^bytes=([\s\S]*)$", v)
    if not m:
        return None
    specs = [x.strip(b" \t") for x in m.group(1).split(b",")]
    specs = [x for x in specs if x]
    if not specs:
        return None
    out = []
    big = False
    for x in specs:
        m = re.match(rb"^([0-9]*)-([0-9]*)$", x)
        if not m or not (m.group(1) or m.group(2)):
            return None
        a, b = m.groups()
        if (a and int(a) > 1 << 59) or (b and int(b) > 1 << 59):
            big = True
        if a:
            a = int(a)
            if b and int(b) < a:
                return None
            e = min(int(b) if b else size - 1, size - 1)
            if a < size:
                out.append((a, e))
        else:
            n = int(b)
            if n > 0 and size > 0:
                out.append((max(0, size - n), size - 1))
    return ("big", out) if big else out


def cut_short(v):
    """is v a proper prefix of a valid byte range header?"""
    if v is None:
        return False
    return b"bytes=".startswith(v) or bool(re.match(rb"^bytes=[\s,]*([0-9]*-[0-9]*\s*,[\s,]*)*([0-9]*|-)\s*$", v))


def multipart(body, boundary):
    """-> [(headers, bytes)]; strict"""
    d = b"\r\n--" + boundary
    if not body.startswith(d):
        if body.startswith(d[2:]):
            body = b"\r\n" + body
        else:
            raise ValueError("does not start with the boundary")
    parts = []
    pos = len(d)
    while True:
        if body[pos:pos + 2] == b"--":
            if body[pos + 2:] not in (b"\r\n", b""):
                raise ValueError("data after the closing boundary")
            return parts
        if body[pos:pos + 2] != b"\r\n":
            raise ValueError("no CRLF after boundary")
        h = body.find(b"\r\n\r\n", pos)
        if h < 0:
            raise ValueError("no part header end")
        hs = {}
        for l in body[pos + 2:h].split(b"\r\n"):
            k, _, v = l.partition(b":")
            hs[k.lower()] = v.strip()
        cr = re.match(rb"^bytes (\d+)-(\d+)/(\d+)$", hs.get(b"content-range", b""))
        if not cr:
            raise ValueError("part without content-range")
        n = int(cr.group(2)) - int(cr.group(1)) + 1
        data = body[h + 4:h + 4 + n]
        parts.append((hs, data, tuple(map(int, cr.groups()))))
        pos = h + 4 + n
        if body[pos:pos + len(d)] != d:
            raise ValueError("part not followed by the boundary")
        pos += len(d)


def run(chk):
    build.build("asan")
    root = os.path.join(chk.scratch, "www")
    os.makedirs(root)
    R = os.fsencode(root)
    files = {}
    sizes = [0, 1, 2, 10, 100, 1000, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537, 131072, 262143, 262145, 524288, 1048575, 1048577, 3000000]
    r0 = chk.rng("files")
    exts = [b"f.txt", b"a.html", b"x.tar.gz", b"x.gz", b"README", b"xREADME", b"j.min.js", b"j.js", b"words", b"noext", b"b.\xff\xfe", b"U.TXT", b"q.a.b.c", b"q.b.c", b"q.c", b"i.html.gz", b".txt", b"txt", b"tar.gz", b"dot.", b"s", b"f.txt.bak", b"l.hs"]
    for i, e in enumerate(exts + exts):
        n = sizes[i % len(sizes)]
        data = r0.randbytes(n)
        name = b"%02d" % i + e if i >= len(exts) else e
        files[name] = data
        with open(os.path.join(R, name), "wb") as f:
            f.write(data)
    names = sorted(files)
    small = [n for n in names if len(files[n]) <= 70000]
    mt = ", ".join('"%s" => "%s"' % (k, v) for k, v in MIME.items())
    conf = """mime_types [ %s ]; keepalive.requests 100000; io.buffer_out 64kbyte;
docroot "%s"; if req.path =^ "/nr/" { alias "/nr/" => "%s/"; static.range_requests false; static; } else if req.path =^ "/sm/" { alias "/sm/" => "%s"; io.buffer_out 16kbyte; static; } else { static; }
""" % (mt, root, root, root)
    srv = server.Server(chk, conf, workers=2, setup="io.timeout 120;").start()

    def enc(n):
        return b"".join(b"%%%02X" % c if c >= 0x7f or c in b"%?# " else bytes([c]) for c in n)

    def rnum(r, size):
        return r.choice([0, 1, 2, max(0, size - 1), size, size + 1, size // 2, r.randrange(0, size + 2), 16383, 16384, 65536, size * 2 + 5])

    def rrange(r, size):
        k = r.randrange(14)

        def one():
            q = r.randrange(4)
            a, b = rnum(r, size), rnum(r, size)
            if q == 0:
                return b"%d-" % a
            if q == 1:
                return b"-%d" % a
            if q == 2:
                return b"%d-%d" % (min(a, b), max(a, b))
            return b"%d-%d" % (a, b) if r.random() < 0.3 else b"%d-%d" % (a, a + r.choice([0, 1, 10, 1000]))
        if k < 6:
            return b"bytes=" + one()
        if k < 9:
            return b"bytes=" + r.choice([b",", b", ", b" , "]).join(one() for _ in range(r.randrange(2, 6)))
        if k == 9:
            return b"bytes=" + r.choice([b"", b",", b"-", b"a-b", b"1-2x", b"1--2", b"0x1-5", b"1-2;", b"--1", b"1-2-3", b"=1-2", b"0-1,x", b"x,0-1", b"0-0,5-2", b"5-2", b"1-2,3", b"1-2 3-4"])
        if k == 10:
            return r.choice([b"byte=0-1", b"octets=0-1", b"0-1", b"bytes", b"bytes:0-1", b"bytes =0-1x", b"BYTES=", b"items=1-2"])
        if k == 11:
            return b"bytes=" + r.choice([b"0-99999999999999999999", b"99999999999999999999-", b"-99999999999999999999999", b"0-9223372036854775807", b"9223372036854775807-", b"18446744073709551616-18446744073709551617", b"-9223372036854775807"])
        if k == 12:
            return b"bytes=" + one() + r.choice([b",", b" ,", b",,"])
        return b"bytes=" + b",".join(one() for _ in range(r.randrange(6, 30)))

    def conn(i):
        r = chk.rng("c", i)
        slow = r.random() < 0.12
        c = http.Conn(port=srv.port, timeout=60, rcvbuf=4096 if slow else None)
        reqs = []
        for j in range(r.choice([1, 2, 5, 12])):
            name = r.choice(small if r.random() < 0.75 else names)
            data = files[name]
            method = r.choice(["GET"] * 5 + ["HEAD"])
            rng = rrange(r, len(data)) if r.random() < 0.65 else None
            pre = r.choice([b"/", b"/", b"/", b"/nr/", b"/sm/"])
            reqs.append((method, name, rng, pre))
        pipe = r.random() < 0.3
        msgs = [http.build_request(m, p + enc(n), [("Range", g)] if g is not None else []) for m, n, g, p in reqs]
        try:
            if pipe:
                c.send(b"".join(msgs))
            for (method, name, rng, pre), msg in zip(reqs, msgs):
                if not pipe:
                    c.send(msg)
                if slow:
                    time.sleep(r.choice([0.01, 0.05, 0.15]))
                wit = {"method": method, "file": name, "size": len(files[name]), "range": rng, "prefix": pre}
                try:
                    rsp = c.read_response(method)
                except (http.Closed, http.ProtoError) as e:
                    chk.violation("broken:%s" % type(e).__name__, "no valid response for %r: %s" % (wit, e), wit)
                    return
                if not rsp.complete:
                    chk.violation("incomplete", "body ended early (%d bytes) for %r" % (len(rsp.body), wit), wit)
                    return
                bad = judge(rsp, method, name, rng if pre != b"/nr/" else None, wit)
                if bad:
                    chk.violation("%s:%s" % (bad[0], "range" if rng else "plain"), "%s (%s)" % (bad[1], wit), dict(wit, head=rsp.raw_head))
                    return
        finally:
            c.close()

    def judge(rsp, method, name, rng, wit):
        data = files[name]
        size = len(data)
        mime = mime_of(R + b"/" + name)
        exp = None
        if rng is not None:
            exp = parse_range(rng, size)
        allowed = []
        if exp is None:
            allowed = [None]
            if cut_short(rng):  # a header that stops in the middle: ignored, unsatisfiable, or the ranges before the cut
                allowed += [[], parse_range(rng.rpartition(b",")[0], size)]
        elif isinstance(exp, tuple):
            allowed = [None, exp[1]]
        else:
            allowed = [exp]
        ct = (rsp.get(b"content-type") or b"").decode("latin-1")
        cl = rsp.get(b"content-length")
        kind = None
        for e in allowed:
            if e is None and rsp.status == 200:
                kind = "full"
                if ct != mime:
                    return "mime", "content type %r, expected %r" % (ct, mime)
                if rsp.get(b"content-range"):
                    return "content-range", "content-range in a 200 response"
                if method == "HEAD":
                    if cl != b"%d" % size and not (size == 0 and cl is None):
                        return "head-length", "content-length %r" % cl
                elif rsp.body != data or cl != b"%d" % size:
                    return "body", "body of %d bytes differs from the file (content-length %r)" % (len(rsp.body), cl)
            elif e == [] and rsp.status == 416:
                kind = "416"
                if rsp.get(b"content-range") != b"bytes */%d" % size:
                    return "content-range", "416 with content-range %r" % rsp.get(b"content-range")
                if size and method == "GET" and rsp.body == data:
                    return "416body", "416 with the file as body"
            elif e and rsp.status == 206:
                if ct.startswith("multipart/byteranges"):
                    kind = "multi%d" % min(len(e), 4)
                    m = re.match(r"^multipart/byteranges; ?boundary=(\S+)$", ct)
                    if not m:
                        return "boundary", "content type %r" % ct
                    if method == "HEAD":
                        break
                    try:
                        parts = multipart(rsp.body, m.group(1).encode())
                    except ValueError as ex:
                        return "multipart", "bad multipart body: %s" % ex
                    if [(p[2][0], p[2][1]) for p in parts] != e:
                        return "parts", "parts %r, expected %r" % ([p[2] for p in parts], e)
                    for hs, d, (a, b_, n) in parts:
                        if n != size or d != data[a:b_ + 1] or hs.get(b"content-type", b"").decode("latin-1") != mime:
                            return "part", "part %d-%d/%d wrong (type %r)" % (a, b_, n, hs.get(b"content-type"))
                else:
                    kind = "single"
                    if len(e) != 1:
                        return "parts", "single part response for %d ranges" % len(e)
                    a, b_ = e[0]
                    if rsp.get(b"content-range") != b"bytes %d-%d/%d" % (a, b_, size):
                        return "content-range", "content-range %r, expected bytes %d-%d/%d" % (rsp.get(b"content-range"), a, b_, size)
                    if ct != mime:
                        return "mime", "content type %r, expected %r" % (ct, mime)
                    if cl != b"%d" % (b_ - a + 1):
                        return "length", "content-length %r for range %d-%d" % (cl, a, b_)
                    if method == "GET" and rsp.body != data[a:b_ + 1]:
                        return "rangebody", "bytes differ from the requested range %d-%d" % (a, b_)
        if kind is None:
            return "status", "status %d for range %r of %d bytes, expected %s" % (rsp.status, rng, size, allowed)
        chk.ok(kind=kind, method=method, size=size, prefix=wit["prefix"].decode(), mime=mime)
        return None
    # every file once, whole
    for n in names:
        c = http.Conn(port=srv.port)
        c.send(http.build_request("GET", b"/" + enc(n)))
        rsp = c.read_response()
        bad = judge(rsp, "GET", n, None, {"prefix": b"/", "file": n})
        if bad:
            chk.violation(bad[0] + ":plain", "%s (%r)" % (bad[1], n), {"file": n})
        c.close()
    check.parallel(12, conn, range(chk.n(2200)))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P07", rule="one evaluation = one response compared byte for byte (body, Content-Length, Content-Type, Content-Range, multipart structure) with an independent interpretation of the Range header; "
                    "distinct = response kinds, file sizes, media types, buffer settings, methods")
    check.run(c, run, min_evals=2000)
