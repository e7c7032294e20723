"""P12: a response the backend did not finish never reaches the client as a complete message; a finished one is never reported as failed."""
import hashlib
import zlib

from vf import build, bwork, check, http, server
from vf.backends import fcgi_record


def inflate(data, enc):
    """-> (bytes, ended); accepts both readings of "deflate" """
    for w in ([31] if enc == b"gzip" else [15, -15]):
        d = zlib.decompressobj(w)
        try:
            return d.decompress(data), d.eof
        except zlib.error:
            pass
    return None, False


def run(chk):
    build.build("asan")
    bk = bwork.Backends(chk)
    conf = """docroot "/nonexistent"; keepalive.timeout 60;
if req.path =~ "^/(proxy|fastcgi|scgi)/" { %s }
else if req.path =~ "^/(proxy|fastcgi|scgi)disk/" { io.buffer_out 16kbyte; %s }
else if req.path =~ "^/z(proxy|fastcgi|scgi)/" { %s deflate; }
else { respond 404; }
""" % (bk.config(), bk.config("disk"), bk.config("").replace('"/', '"/z'))
    srv = server.Server(chk, conf, modules=["mod_proxy", "mod_fastcgi", "mod_scgi", "mod_deflate"], workers=3, setup="io.timeout 120;").start()

    def one(i, attempt=0):
        r = chk.rng("cut", i)
        rid = "t%d_%d" % (i, attempt)
        kind = r.choice(["proxy", "proxy", "fastcgi", "scgi"])
        route = r.choice(["", "", "disk", "z"])
        n = r.choice([1, 2, 10, 100, 3000, 20000, 70000, 16384 - 150 + r.randrange(120), 32768 - 150 + r.randrange(120), 300000 if r.random() < 0.3 else 64])
        body = (hashlib.sha256(b"%d" % i).hexdigest().encode() * (n // 64 + 1))[:n]
        version = r.choice(["1.1", "1.1", "1.1", "1.0"])
        conn = r.choice([None, None, "close", "keep-alive"])
        fr = r.choice(["length", "chunked", "close"] if kind == "proxy" else ["length", "close"])
        h = b"Content-Type: text/plain\r\nX-A: 1\r\n"
        fault = "none"
        fin = r.choice([("close",), ("rst",), ("close",)])
        if kind == "proxy":
            if fr == "length":
                h += b"Content-Length: %d\r\n" % n
                pl = body
            elif fr == "chunked":
                h += b"Transfer-Encoding: chunked\r\n"
                pl = bwork.chunk_encode(r, body)
            else:
                pl = body
            if r.random() < 0.5:
                h += b"Connection: close\r\n"
            head = b"HTTP/1.1 200 OK\r\n" + h + b"\r\n"
        else:
            if fr == "length":
                h += b"Content-Length: %d\r\n" % n
            head = r.choice([b"Status: 200 OK\r\n", b""]) + h + b"\r\n"
            pl = body
        total = head + pl
        # ---- choose the fault
        choices = ["none", "cut", "cut", "cutbody", "cutbody", "cutend"]
        if kind == "proxy" and fr == "chunked":
            choices += ["badchunk", "badchunk"]
        if kind == "fastcgi":
            choices += ["noend", "noend", "badrecord", "endearly"]
        fault = r.choice(choices)
        complete = fault == "none"
        if fault == "none":
            script = bwork.segment(r, total)
            if kind == "fastcgi":
                script.append(("end",))
            elif kind == "scgi" or fr == "close":
                script.append(("close",))
            else:
                # a reset after the complete message (unsent data would be lost at the sender, so only once it was surely transmitted)
                script += r.choice([[], [("close",)]] + ([[("sleep", 0.05), ("rst",)]] * 2 if len(total) < 50000 else []))
        elif fault == "badchunk":
            # corrupt one chunk header or terminator
            k = r.randrange(4)
            half = bwork.chunk_encode(r, body[: n // 2])[:-5]
            if k == 0:
                pl = half + b"zz\r\n" + body[n // 2:] + b"\r\n0\r\n\r\n"
            elif k == 1:
                pl = half + b"%x\r\n" % 4 + b"abcdXX0\r\n\r\n"
            elif k == 2:
                pl = half + b"-1\r\nx\r\n0\r\n\r\n"
            else:
                pl = half + b"\r\n0\r\n\r\n"
            total = head + pl
            script = bwork.segment(r, total) + r.choice([[], [("close",)]])
        elif fault in ("noend", "badrecord", "endearly"):
            script = bwork.segment(r, total)
            if fault == "noend":
                if r.random() < 0.5:
                    script.append(("record", 6, b""))    # end of stdout, but no end of request
                    # the end of the stdout stream is an explicit end mark: both readings are defensible
                    fault = "noend-eos"
                    complete = None
                script.append(fin)
            elif fault == "badrecord":
                bad = r.choice([b"\x02\x06\x00\x01\x00\x04\x00\x00abcd", b"\x01\x06\x00\x01\x00\x10\x00\x00abc", b"\x00" * 8, b"\x01\x06\x00\x01\xff", b"\x01\x03\x00\x01\x00\x08\x00\x00\x00\x00\x00",
                                b"\x01\x03\x00\x01\x00\x04\x00\x00\x00\x00\x00\x00", b"\x01\x03\x00\x01\x00\x08\x00\x00" + b"\0\0\0\0\x01\0\0\0"])
                script += [("raw", bad), ("close",)]
            else:
                # end of request with a failure status of the protocol
                cut = r.randrange(0, max(1, len(head) - 2))
                script = ([("send", total[:cut])] if cut else []) + [("record", 3, b"\0\0\0\0" + bytes([r.choice([0, 2])]) + b"\0\0\0")]
        else:
            if fault == "cut":
                cut = r.randrange(0, len(total))
            elif fault == "cutbody":
                cut = len(head) + r.randrange(0, len(pl))
            else:
                cut = len(total) - r.randrange(1, min(6, len(pl)) + 1)
            if cut >= len(head) and (fr == "close" and kind != "fastcgi"):
                fin = ("rst",)      # an orderly close would be the legal end
            script = bwork.segment(r, total[:cut]) if cut else []
            if fin[0] == "rst":
                script.append(("sleep", 0.05))      # let the data arrive first
            script.append(fin)
        bk.set(rid, script)
        hdr = [("Connection", conn)] if conn else []
        if route == "z":
            hdr.append(("Accept-Encoding", r.choice(["gzip", "deflate", "identity"])))
        path = "/%s%s%s/%s" % ("z" if route == "z" else "", kind, "disk" if route == "disk" else "", rid)
        wit = {"path": path, "fault": fault, "framing": fr, "version": version, "conn": conn, "len": n, "script": repr([(a[0],) + tuple(x if not isinstance(x, bytes) else x[-200:] for x in a[1:]) for a in script])[:3000]}
        c = http.Conn(port=srv.port, timeout=25)
        try:
            c.send(http.build_request("GET", path, hdr, None, version))
            out = "?"
            rsp = None
            try:
                rsp = c.read_response("GET")
                out = "response"
            except http.Closed as e:
                out = "closed"
            except http.Timeout as e:
                return "client left hanging after backend fault %s/%s (%s)" % (kind, fault, e), wit
            except http.ProtoError as e:
                chk.violation("proto:%s" % kind, "malformed response: %s" % e, wit)
                return
            wit["got"] = repr(rsp)
            enc = rsp.get(b"content-encoding") if rsp else None
            if complete:
                if rsp is None or not rsp.complete or rsp.status != 200:
                    return "complete backend response was reported as failed (%s)" % (rsp or out), wit
                data = rsp.body
                if enc in (b"gzip", b"deflate"):
                    data, eof = inflate(data, enc)
                    if not eof:
                        chk.violation("complete-inflate:%s" % kind, "complete response does not decompress", wit)
                        return
                if data != body:
                    chk.violation("complete-body:%s" % kind, "complete response has another body (%d of %d bytes)" % (len(data), n), wit)
                    return
            elif complete is False and rsp is not None and rsp.complete and rsp.status < 400:
                # a response with status < 400 that looks complete to this client?
                if fault in ("noend", "badrecord") and fr == "length" and rsp.body == body:
                    chk.count("all announced bytes arrived", kind)
                elif rsp.framing == "close" and not enc:
                    # no announced length: the end of the connection is all the client can see
                    chk.count("indistinguishable", kind)
                elif rsp.framing == "close":
                    if inflate(rsp.body, enc)[1]:
                        return "truncated response delivered as complete %s document" % enc.decode(), wit
                else:
                    return "backend response cut by %s (%s) delivered as complete message %r" % (fault, fin[0], rsp), wit
            chk.ok(kind=kind + route, fault=fault + "/" + fin[0], framing=fr, version=version, outcome=("status%d" % rsp.status if rsp and rsp.complete else out))
        finally:
            c.close()
            bk.take(rid)

    def twice(i):
        x = one(i)
        if x:
            y = one(i, 1)
            if y:
                chk.violation("%s:%s:%s" % (y[1]["path"].split("/")[1], y[1]["fault"], y[0][:40]), y[0], y[1])
            else:
                chk.inconcl(x[0])
    check.parallel(24, twice, range(chk.n(6000)))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P12", rule="one evaluation = one backend response ended by an injected fault (or completely) and judged complete/incomplete at the client; "
                    "distinct = backend kinds, faults and ways to close, framings, client versions, outcomes")
    check.run(c, run, min_evals=1000)
