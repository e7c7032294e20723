"""P10: a request reaches the chosen backend exactly once with its method, target, headers and body unchanged; a request whose body was
not received completely never reaches the backend as a complete request."""
import hashlib
import os
import subprocess
import time

from vf import build, bwork, check, http, server

DROP = {b"content-length", b"transfer-encoding", b"te", b"connection", b"proxy-connection", b"x-forwarded-proto", b"x-forwarded-for"}


FR = (b"HTTP_CONTENT_LENGTH", b"HTTP_TRANSFER_ENCODING")


def cgi_name(k):
    n = bytes(c if (48 <= c <= 57 or 65 <= c <= 90) else (c - 32 if 97 <= c <= 122 else 95) for c in k)
    return n if n == b"CONTENT_TYPE" and k.lower() == b"content-type" else b"HTTP_" + n


def decode(p):
    out = bytearray()
    i = 0
    while i < len(p):
        if p[i:i + 1] == b"%" and i + 2 < len(p) + 0 and len(p) >= i + 3:
            out.append(int(p[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(p[i])
            i += 1
    return bytes(out)


def disk_full(chk):
    """uploads buffered on a disk that is getting full: they are forwarded unbuffered, and nothing is lost or sent twice"""
    so, ctl = os.path.join(chk.scratch, "pwfault.so"), os.path.join(chk.scratch, "pwfault.ctl")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(os.path.dirname(bwork.__file__), "pwfault.c"), "-ldl"], check=True)
    with open(ctl, "w") as f:
        f.write("1")
    bk = bwork.Backends(chk)
    srv = server.Server(chk, 'docroot "/nonexistent"; %s' % bk.config("full"), modules=["mod_proxy", "mod_fastcgi", "mod_scgi"], setup="io.timeout 30;", workers=3, name="full",
                        preload=so, env={"VF_PWFAULT_PREFIX": "/var/tmp/lighttpd-buffer-", "VF_PWFAULT_CTL": ctl}).start()

    def one(i):
        r = chk.rng("full", i)
        kind = r.choice(["proxy", "fastcgi", "scgi"])
        rid = "d%d" % i
        n = r.choice([70000, 100000, 262144, 300001, 1000000])
        body = b"".join(hashlib.sha256(b"%d/%d/%d" % (chk.seed, i, k)).digest() for k in range(n // 32 + 1))[:n]
        chunked = [r.choice([100, 4096, 9000, 65536]) for _ in range(5)] if r.random() < 0.4 else None
        answer = b"answer-" + rid.encode()
        if kind == "proxy":
            script = [("send", b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(answer) + answer)]
        else:
            script = [("send", b"Content-Length: %d\r\n\r\n" % len(answer) + answer), ("end",) if kind == "fastcgi" else ("close",)]
        bk.set(rid, script)
        c = http.Conn(port=srv.port, timeout=60)
        out = "closed"
        try:
            raw = http.build_request("POST", "/%sfull/%s" % (kind, rid), [("Host", "x")], body, "1.1", None, chunked)
            cuts = sorted(r.randrange(1, len(raw)) for _ in range(r.randrange(0, 12)))
            c.send_segments(raw, cuts, 0.001)
            out = c.read_response("POST").status
        except (http.Closed, http.Timeout, http.ProtoError, OSError) as e:
            out = type(e).__name__
        finally:
            c.close()
        recs = bk.take(rid)
        wit = {"kind": kind, "size": n, "chunked": chunked, "status": out}
        if len(recs) > 1:
            chk.violation("full-once:%s" % kind, "upload %s reached the backend %d times" % (rid, len(recs)), wit)
        for rec in recs:
            if rec.error and not rec.error.startswith("duplicate"):
                if out == 200:
                    chk.violation("full-malformed:%s" % kind, "backend got a malformed request: %s" % rec.error, wit)
            elif rec.complete and (rec.body != body or rec.extra):
                k = next((j for j in range(min(len(body), len(rec.body))) if body[j] != rec.body[j]), min(len(body), len(rec.body)))
                chk.violation("full-body:%s" % kind, "upload while the disk is full: the backend received another body (%d bytes, sent %d, first difference at %d)" % (len(rec.body), n, k), wit)
            elif rec.complete:
                good.append(i)
        chk.ok(full=str(out), full_kind=kind)

    good = []
    k = chk.n(400)
    check.parallel(8, one, range(k))
    if len(good) < k // 4:
        chk.violation("full-lost", "only %d of %d uploads reached the backend while the disk was full" % (len(good), k), {})
    srv.verify("full")
    srv.stop()


def run(chk):
    build.build("asan")
    if chk.want("full"):
        disk_full(chk)
    if not chk.want("main"):
        return
    bk = bwork.Backends(chk)
    conf = """docroot "/nonexistent"; keepalive.timeout 60;
if req.path =~ "^/(proxy|fastcgi|scgi)/" { %s }
else if req.path =~ "^/(proxy|fastcgi|scgi)disk/" { io.buffer_in 4kbyte; %s }
else if req.path =~ "^/(proxy|fastcgi|scgi)nobuf/" { buffer_request_body false; %s }
else { respond 404; }
""" % (bk.config(), bk.config("disk"), bk.config("nobuf"))
    srv = server.Server(chk, conf, modules=["mod_proxy", "mod_fastcgi", "mod_scgi"], workers=3).start()

    def rand_header(r, j):
        name = r.choice(["X-H%d" % j, "x_under%d" % j, "Accept", "User-Agent", "Cookie", "Referer", "X-Long%d" % j, "X.Dot", "Content-Type", "Content-Encoding", "Via", "If-Match",
                         "Cache-Control", "Content_Type", "Content-Type2", "Http-Foo", "Proxy-X", "Authorization", "Range", "Upgrade-Insecure-Requests"])
        k = r.randrange(8)
        if k == 0:
            v = ""
        elif k == 1:
            v = "a" * r.choice([1, 63, 64, 127, 128, 129, 255, 256, 1000, 4000])
        elif k == 2:
            v = 'q="quoted, \\\\ string"; x=y'
        elif k == 3:
            v = bytes(r.choice(range(0x80, 0x100)) for _ in range(r.randrange(1, 20))).decode("latin-1")
        elif k == 4:
            v = "a \t b  c"
        else:
            v = "".join(r.choice("abcXYZ019 ;,=:/?()[]{}<>@%&+*'!#$^|~-_.") for _ in range(r.randrange(1, 60))).strip()
        return name, v

    def one(i, attempt=0):
        r = chk.rng("req", i)
        c = http.Conn(port=srv.port, timeout=60)
        lip, lport = c.s.getsockname()
        try:
            for step in range(r.choice([1, 1, 2, 4])):
                rid = "q%d_%d_%d" % (i, step, attempt)
                kind = r.choice(["proxy", "fastcgi", "scgi"])
                route = r.choice(["", "", "disk", "nobuf"])
                method = r.choice(["GET", "HEAD", "POST", "POST", "POST", "PUT", "PUT", "DELETE", "OPTIONS", "PATCH", "MKCOL", "LOCK", "FOO", "get", "X-Y.z"])
                path = "/%s%s/%s" % (kind, route, rid)
                if r.random() < 0.6:
                    path += "/" + "".join(r.choice(["a", "b%20c", "%41", "~", "x;y=1", "%2f", "%C3%A9", "%25", "+", "'", "\"", "<", "@:", "*"]) for _ in range(r.randrange(1, 6)))
                q = ""
                if r.random() < 0.5:
                    q = "".join(r.choice(["a=b", "&", "%20", "%00", "?", "/../", "//", "x[]=1", "=", "+", "%zz", "%", "\\"]) for _ in range(r.randrange(0, 8)))
                    path_q = path + "?" + q
                else:
                    path_q = path
                hs = [("Host", r.choice(["localhost", "example.com", "EXAMPLE.com:8080", "10.0.0.1:99"]))]
                for j in range(r.randrange(0, 10)):
                    hs.append(rand_header(r, j))
                if r.random() < 0.2:
                    hs.append(("X-Forwarded-For", "6.6.6.6"))
                if r.random() < 0.2:
                    hs.append(("TE", "trailers"))
                if r.random() < 0.1:
                    hs.append(("Proxy-Connection", "close"))
                r.shuffle(hs)
                body = b""
                chunked = None
                has_body = method not in ("GET", "HEAD")
                if has_body:
                    n = r.choice([0, 1, 2, 100, 4095, 4096, 4097, 10000, 65535, 65536, 70000, r.choice([200000, 300000, 1000000, 2500000]) if r.random() < 0.4 else 7])
                    base = hashlib.sha256(rid.encode()).digest()
                    body = (base * (n // 32 + 1))[:n]
                    if r.random() < 0.4:
                        chunked = [r.choice([1, 3, 100, 4096, 9000, 65536, 300000]) for _ in range(r.randrange(1, 9))]
                version = r.choice(["1.1", "1.1", "1.1", "1.0"])
                if chunked is not None:
                    version = "1.1"
                if version == "1.0":
                    hs.append(("Connection", "keep-alive"))
                raw = http.build_request(method, path_q, hs, body if has_body else None, version, None, chunked)
                headlen = raw.index(b"\r\n\r\n") + 4
                answer = b"answer-%s" % rid.encode()
                if kind == "proxy":
                    script = [("send", b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(answer) + answer)]
                else:
                    script = [("send", b"Content-Length: %d\r\n\r\n" % len(answer) + answer), ("end",) if kind == "fastcgi" else ("close",)]
                if method == "HEAD":
                    script = [("send", script[0][1][:-len(answer)])] + script[1:]
                bk.set(rid, script)
                wit = {"head": raw[:headlen][:3000], "bodylen": len(body), "route": kind + route, "chunked": chunked}
                abort = r.random() < 0.12 and len(raw) > headlen
                if abort:
                    # client goes away before the message is complete
                    cut = r.randrange(headlen, len(raw))
                    c.send_segments(raw[:cut], [], 0)
                    if r.random() < 0.5:
                        time.sleep(r.choice([0, 0.002, 0.02]))
                    if r.random() < 0.5:
                        c.rst()
                    else:
                        c.close()
                    aborted.append((rid, body, wit, kind))
                    chk.count("aborted", kind + route)
                    return
                seg = r.choice(["whole", "whole", "random", "headsplit"])
                cuts = []
                if seg == "random":
                    cuts = sorted(r.randrange(1, len(raw)) for _ in range(r.randrange(1, 10)))
                elif seg == "headsplit":
                    cuts = [headlen]
                c.send_segments(raw, cuts, 0.001)
                try:
                    rsp = c.read_response(method)
                except (http.Closed, http.Timeout) as e:
                    if route == "nobuf" and chunked is not None and kind != "fastcgi" and isinstance(e, http.Closed) and not bk.take(rid):
                        # progressive uploads of unknown length are refused by design (connection closed, backend never contacted)
                        chk.ok(nobuf_chunked="refused")
                        return
                    return "no response to %s %s (%s: %s)" % (method, path_q, type(e).__name__, e), wit
                except http.ProtoError as e:
                    chk.violation("proto", "malformed response: %s" % e, wit)
                    return
                recs = bk.take(rid)
                wit["response"] = repr(rsp)
                if rsp.status in (400, 411) and route == "nobuf" and chunked is not None and not recs:
                    chk.ok(nobuf_chunked="refused")
                    return
                if rsp.status != 200 or (method != "HEAD" and rsp.body != answer):
                    if rsp.status in (502, 503, 504):
                        return "backend request %s failed: %r" % (path_q, rsp), wit
                    chk.violation("answer:%s" % (kind + route), "valid request %s %s got %r" % (method, path_q, rsp), wit)
                    return
                if len(recs) != 1:
                    chk.violation("exactly-once:%s" % kind, "request %s reached the backend %d times" % (path_q, len(recs)), wit)
                    return
                rec = recs[0]
                if rec.error and not rec.error.startswith("duplicate"):
                    chk.violation("backend-malformed:%s:%s" % (kind + route, rec.error[:40]), "backend got a malformed request: %s" % rec.error, dict(wit, rec=repr(rec.headers or rec.envlist)))
                    return
                if rec.body != body or rec.extra:
                    chk.violation("body:%s" % (kind + route), "backend received another body (%d bytes, sent %d)" % (len(rec.body), len(body)), wit)
                    return
                sent = [(k.encode("latin-1"), v.encode("latin-1").strip(b" \t")) for k, v in hs]
                bad = None
                if kind == "proxy":
                    if rec.method != method.encode() or rec.target != path_q.encode() or rec.version != version.encode():
                        bad = "request line %r %r %r" % (rec.method, rec.target, rec.version)
                    got = [(k, v) for k, v in rec.headers if k.lower() not in DROP]
                    exp = [(k, v) for k, v in sent if k.lower() not in DROP]
                    if not bad and got != exp:
                        bad = "headers differ: only sent %r, only received %r (or order)" % ([x for x in exp if x not in got][:3], [x for x in got if x not in exp][:3])
                    if not bad and has_body and rec.all(b"content-length") != [b"%d" % len(body)] and not rec.all(b"transfer-encoding"):
                        bad = "content-length %r" % rec.all(b"content-length")
                else:
                    e = rec.env
                    exp = {b"REQUEST_METHOD": method.encode(), b"QUERY_STRING": q.encode(), b"REQUEST_URI": path_q.encode(), b"SERVER_PROTOCOL": b"HTTP/" + version.encode(),
                           b"GATEWAY_INTERFACE": b"CGI/1.1", b"SCRIPT_NAME": decode(path.encode())}
                    if has_body or kind == "scgi":
                        exp[b"CONTENT_LENGTH"] = b"%d" % len(body)
                    if b"//" in decode(path.encode()) or "/." in decode(path.encode()).decode("latin-1"):
                        del exp[b"SCRIPT_NAME"]
                    host = dict(hs)["Host"].rsplit(":", 1)[0].lower().encode()
                    exp[b"SERVER_NAME"] = host
                    for k, v in exp.items():
                        if (e.get(k) or b"") != v and not (k == b"SERVER_NAME" and e.get(k, b"").lower() == v):
                            if k == b"CONTENT_LENGTH" and route == "nobuf" and chunked is not None and k not in e:
                                continue
                            bad = "variable %s is %r, expected %r" % (k.decode(), e.get(k), v)
                    got = sorted((k, v.strip(b" \t")) for k, v in rec.envlist if (k.startswith(b"HTTP_") or k == b"CONTENT_TYPE") and k not in FR)
                    want = sorted((cgi_name(k), v) for k, v in sent if cgi_name(k) not in FR)
                    if kind == "fastcgi" or kind == "scgi":
                        if not bad and got != want:
                            bad = "header variables differ: missing %r, extra %r" % ([x for x in want if x not in got][:3], [x for x in got if x not in want][:3])
                    # singular variables must be singular
                    names = [k for k, _ in rec.envlist if not k.startswith(b"HTTP_") and k != b"CONTENT_TYPE"]
                    if not bad and len(names) != len(set(names)):
                        bad = "variable sent twice: %r" % [k for k in names if names.count(k) > 1][:1]
                if bad:
                    chk.violation("fidelity:%s:%s" % (kind, bad[:24]), "%s %s via %s: %s" % (method, path_q, kind + route, bad), dict(wit, rec=repr(rec.headers or rec.envlist)[:6000]))
                    return
                chk.ok(kind=kind + route, method=method, size=len(body), framing="chunked" if chunked is not None else "length", seg=seg, version=version)
                if not rsp.keepalive():
                    return
        finally:
            c.close()

    aborted = []

    def twice(i):
        x = one(i)
        if x:
            y = one(i, 1)
            if y:
                chk.violation("failed:" + y[1]["route"], y[0], y[1])
            else:
                chk.inconcl(x[0])
    check.parallel(12, twice, range(chk.n(3500)))
    # aborted uploads: whatever arrived at the backend must not look complete
    time.sleep(1.0)
    for rid, body, wit, kind in aborted:
        for rec in bk.take(rid):
            if rec.complete and not rec.error and rec.body != body:
                chk.violation("partial-as-complete:%s" % wit["route"], "the backend got an aborted upload as complete request (%d of %d bytes)" % (len(rec.body), len(body)), wit)
            elif rec.complete and not rec.error:
                chk.violation("partial-complete-body:%s" % wit["route"], "message was never completed by the client but executed", wit) if False else None
        chk.ok(abort=wit["route"])
    if bk.unknown:
        k, t, rec = bk.unknown[0]
        chk.violation("unknown-request", "backend received %d requests nobody sent, e.g. %s %r" % (len(bk.unknown), k, t), {"rec": repr(rec.__dict__)[:3000]})
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P10", rule="one evaluation = one client request compared field by field with the single record the stub backend made of it, or one aborted upload "
                    "checked at the backend; distinct = backend kinds/routes, methods, body sizes, framings, segmentations")
    check.run(c, run, min_evals=1000)
