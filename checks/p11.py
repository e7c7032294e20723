"""P11: status, headers and body of a backend response arrive at the client exactly as sent."""
import hashlib
import random
import threading
import time

from vf import build, bwork, check, http, server
from vf.backends import fcgi_record

HOP = {b"connection", b"transfer-encoding", b"content-length", b"date", b"server", b"keep-alive"}


def payload(key, n):
    base = hashlib.sha256(key.encode()).digest() * 8
    base = bytes((x + i) & 255 for i, x in enumerate(base))
    return (base * (n // len(base) + 1))[:n]


def run(chk):
    build.build("asan")
    bk = bwork.Backends(chk)
    conf = """docroot "/nonexistent"; keepalive.timeout 60;
if req.path =~ "^/(proxy|fastcgi|scgi)/" { %s }
else if req.path =~ "^/(proxy|fastcgi|scgi)buf/" { io.buffer_out 16kbyte; %s }
else if req.path =~ "^/(proxy|fastcgi|scgi)unl/" { io.buffer_out 1mbyte; %s }
else { respond 404; }
""" % (bk.config(), bk.config("buf"), bk.config("unl"))
    srv = server.Server(chk, conf, modules=["mod_proxy", "mod_fastcgi", "mod_scgi"], workers=3, setup="io.timeout 120;").start()
    STAT = [200] * 8 + [201, 202, 203, 206, 207, 300, 301, 302, 303, 307, 308, 400, 401, 403, 404, 405, 409, 410, 418, 422, 429, 451, 500, 501, 502, 503, 504, 511, 599]

    def hdrs(r):
        hs = []
        for j in range(r.randrange(0, 9)):
            n = r.choice(["X-A", "X-B%d" % j, "Set-Cookie", "Set-Cookie", "Content-Type", "Cache-Control", "ETag", "Last-Modified", "Vary", "Link", "X_under", "X.dot", "Content-Language", "WWW-Authenticate", "Expires", "Allow"])
            k = r.randrange(7)
            if k == 0:
                v = "a=%d; Path=/; HttpOnly" % j
            elif k == 1:
                v = "v" * r.choice([1, 100, 1000, 5000])
            elif k == 2:
                v = ""
            elif k == 3:
                v = bytes(r.choice(range(0x80, 0x100)) for _ in range(r.randrange(1, 12))).decode("latin-1")
            elif k == 4:
                v = 'q="x, \\"y", z  w:t'
            else:
                v = "".join(r.choice("abcXYZ019 ;,=:/?()[]{}<>@%&+*'!#$^|~-_.") for _ in range(r.randrange(1, 50))).strip()
            hs.append((n, v))
        return hs

    def one(i, attempt=0):
        r = chk.rng("rsp", i)
        c = http.Conn(port=srv.port, timeout=60, rcvbuf=r.choice([None, None, 4096]))
        try:
            for step in range(r.choice([1, 1, 2, 3])):
                rid = "s%d_%d_%d" % (i, step, attempt)
                kind = r.choice(["proxy", "fastcgi", "scgi"])
                route = r.choice(["", "", "buf", "unl"])
                st = r.choice(STAT)
                version = r.choice(["1.1", "1.1", "1.0"])
                creq = r.choice(["keep", "keep", "close"])
                n = r.choice([0, 1, 5, 1000, 4096, 16384, 65535, 65536, 100000, r.choice([300000, 1000000, 3000000]) if r.random() < 0.4 else 12])
                body = payload("s%d_%d" % (i, step), n)
                hs = hdrs(r)
                eol = b"\r\n"
                hl = b"".join(k.encode() + b":" + r.choice([b" ", b"", b"  "]) + v.encode("latin-1") + eol for k, v in hs)
                fr = r.choice(["length", "length", "chunked", "close"])
                if kind == "proxy":
                    ver = b"1.0" if (fr != "chunked" and r.random() < 0.2) else b"1.1"
                    if fr == "length":
                        hl += b"Content-Length: %d\r\n" % n
                        pl = body
                    elif fr == "chunked":
                        hl += b"Transfer-Encoding: " + r.choice([b"chunked", b"Chunked"]) + b"\r\n"
                        pl = bwork.chunk_encode(r, body) if n < 200000 else b"".join(b"%x\r\n" % len(body[p:p + 50000]) + body[p:p + 50000] + b"\r\n" for p in range(0, n, 50000)) + b"0\r\n\r\n"
                        if r.random() < 0.2:
                            pl = pl[:-2] + b"X-Trailer: 1\r\n\r\n"
                            trailer = True
                    else:
                        pl = body
                    if r.random() < 0.5 or fr == "close":
                        hl += b"Connection: close\r\n"
                    raw = b"HTTP/" + ver + b" %d " % st + r.choice([b"OK", b"Some Reason Phrase", b"X"]) + b"\r\n" + hl + b"\r\n" + pl
                    script = bwork.segment(r, raw) + ([("close",)] if fr == "close" or ver == b"1.0" or r.random() < 0.3 else [])
                else:
                    style = r.choice(["status", "status", "none", "nph"]) if kind == "fastcgi" or True else ""
                    if style == "none" or (style == "nph"):
                        st = 200
                        s0 = b""
                    else:
                        s0 = b"Status: %d%s\r\n" % (st, r.choice([b"", b" OK", b" Some reason"]))
                    if fr == "length":
                        hl += b"Content-Length: %d\r\n" % n
                    lh = s0 + hl
                    if not lh:
                        lh = b"X-Nothing: 1\r\n"
                        hs = [("X-Nothing", "1")]
                    parts = lh.split(b"\r\n")[:-1]
                    if s0 and r.random() < 0.5:
                        parts = parts[1:] + parts[:1]
                    raw = b"".join(x + b"\r\n" for x in parts) + b"\r\n" + body
                    script = bwork.segment(r, raw)
                    if kind == "fastcgi":
                        if r.random() < 0.4:
                            # hand-made records: random sizes, padding, stderr in between
                            script = []
                            p = 0
                            while p < len(raw):
                                k = r.choice([1, 7, 8, 100, 5000, 65535, 65528])
                                if len(raw) - p > 100000:
                                    k = max(k, 5000)
                                script.append(("record", 6, raw[p:p + k], r.choice([0, 0, 1, 7, 8, 255])))
                                p += k
                                if r.random() < 0.1:
                                    script.append(("stderr", b"STDERR-MARK %d\nStatus: 500\r\n\r\n" % p))
                                if r.random() < 0.05:
                                    script.append(("sleep", 0.002))
                            if r.random() < 0.3:
                                script.insert(0, ("stderr", b"STDERR-MARK early"))
                        script = script + [("end",)]
                        if script[0][0] in ("record", "stderr") and r.random() < 0.6:
                            # the same records as raw bytes, cut anywhere: inside record headers, contents and padding
                            flat = b""
                            marks = []
                            for a in script:
                                if a[0] == "record":
                                    flat += fcgi_record(a[1], 1, a[2], a[3])
                                elif a[0] == "stderr":
                                    flat += fcgi_record(7, 1, a[1], r.choice([0, 3]))
                                elif a[0] == "end":
                                    flat += fcgi_record(6, 1, b"") + fcgi_record(3, 1, bytes(8), r.choice([0, 0, 5]))
                                marks.append(len(flat))
                            cuts = set()
                            for m in r.sample(marks, min(len(marks), 6)):
                                for _ in range(2):
                                    k = m + r.choice([-300, -9, -5, -3, -2, -1, 0, 1, 4, 7, 8, 9])
                                    if 0 < k < len(flat):
                                        cuts.add(k)
                            script = []
                            p = 0
                            for k in sorted(cuts) + [len(flat)]:
                                script += [("raw", flat[p:k]), ("sleep", r.choice([0.001, 0.004, 0.008]))]
                                p = k
                            script += [("sleep", 0.05), ("close",)]
                    else:
                        script = script + [("close",)]
                bk.set(rid, script)
                hdr = []
                if version == "1.0" and creq == "keep":
                    hdr.append(("Connection", "keep-alive"))
                if version == "1.1" and creq == "close":
                    hdr.append(("Connection", "close"))
                method = r.choice(["GET", "GET", "POST"])
                c.send(http.build_request(method, "/%s%s/%s" % (kind, route, rid), hdr, b"xx" if method == "POST" else None, version))
                wit = {"kind": kind + route, "framing": fr, "backend_bytes": raw[:3000], "len": n, "version": version, "conn": creq, "script": repr([(a[0],) + tuple(len(x) if isinstance(x, bytes) else x for x in a[1:]) for a in script])[:1500]}
                if r.random() < 0.15 and n > 50000:
                    time.sleep(r.choice([0.05, 0.2]))
                try:
                    rsp = c.read_response(method)
                except (http.Closed, http.Timeout) as e:
                    return "no complete response (%s: %s) for %s" % (type(e).__name__, e, wit["kind"]), wit
                except http.ProtoError as e:
                    chk.violation("proto:%s" % kind, "malformed response: %s" % e, wit)
                    return
                bk.take(rid)
                if rsp.status == 503 and st != 503:
                    return "503 from server for healthy backend", wit
                bad = None
                want_body = body
                if rsp.status != st:
                    bad = "status %d, backend sent %d" % (rsp.status, st)
                elif not rsp.complete:
                    return "response body incomplete %d of %d" % (len(rsp.body), n), wit
                elif rsp.body != want_body and not (st >= 400 and n == 0):
                    k = next((j for j in range(min(len(rsp.body), n)) if rsp.body[j] != body[j]), min(len(rsp.body), n))
                    bad = "body differs at byte %d (got %d bytes, sent %d)" % (k, len(rsp.body), n)
                    if b"STDERR-MARK" in rsp.body:
                        bad = "stderr text in the body"
                else:
                    got = [(k, v.strip(b" \t")) for k, v in rsp.headers if k.lower() not in HOP]
                    exp = [(k.encode(), v.encode("latin-1").strip(b" \t")) for k, v in hs if k.lower().encode() not in HOP]
                    if st >= 400 and n == 0:
                        got = [x for x in got if x[0].lower() not in (b"content-type", b"etag", b"last-modified")]
                        exp = [x for x in exp if x[0].lower() not in (b"content-type", b"etag", b"last-modified")]
                    if got != exp:
                        bad = "headers differ: missing %r, extra %r (or order)" % ([x for x in exp if x not in got][:3], [x for x in got if x not in exp][:3])
                if bad:
                    chk.violation("fidelity:%s:%s" % (kind, bad[:16]), "%s: %s" % (kind + route, bad), dict(wit, got=repr(rsp.headers)))
                    return
                chk.ok(kind=kind + route, framing=fr, size=n, version=version + creq, status=st, records={"record": "handmade", "stderr": "handmade", "raw": "rawcut"}.get(script[0][0], "plain"))
                if not rsp.keepalive():
                    return
        finally:
            c.close()

    def twice(i):
        x = one(i)
        if x:
            y = one(i, 1)
            if y:
                chk.violation("failed:" + y[1]["kind"], y[0], y[1])
            else:
                chk.inconcl(x[0])
    check.parallel(12, twice, range(chk.n(3500)))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P11", rule="one evaluation = one backend response compared (status, header list, body bytes) with what the client received; "
                    "distinct = backend kinds/routes, framings, sizes, client versions, statuses")
    check.run(c, run, min_evals=1000)
