"""P03: request framing and pipelining exactness.

Oracle: an independent model of RFC 7230 framing predicts, for every byte stream sent on a connection, the list of requests that must be
processed (method, target, body, order) and where the connection has to end; the proxied stub backend and the client-side strict
response parser observe what really happened."""
import hashlib
import os

from vf import backends, check, http, server, build


def run(chk):
    build.build("asan")
    www = os.path.join(chk.scratch, "www")
    os.makedirs(www + "/s")
    for i in range(4):
        open(www + "/s/f%d.txt" % i, "w").write("file-%d" % i)

    def handler(rec):
        h = hashlib.sha1(rec.body).hexdigest()
        b = b"" if rec.method == b"HEAD" else b"body-of-" + rec.target
        return [("send", b"HTTP/1.1 200 OK\r\nX-Target: " + rec.target + b"\r\nX-Sha: " + h.encode() + b"\r\nContent-Length: %d\r\n\r\n" % (
            len(b"body-of-" + rec.target)) + b)]
    px = backends.HttpStub(handler)
    conf = '''docroot "%s";
if req.path =^ "/p/" { proxy "%s"; } else if req.path =^ "/e/" { respond 200 => "resp:%%{req.path}"; } else { static; }''' % (www, px.addr())
    srv = server.Server(chk, conf, setup="keepalive.requests 1000;", modules=["mod_proxy"], workers=3).start()

    def gen_valid(r, cid, k):
        """-> (bytes, expect dict)"""
        rid = "c%dk%d" % (cid, k)
        kind = r.choice(["p", "p", "p", "s", "e"])
        smug = ("GET /p/SMUG-%s HTTP/1.1\r\nHost: smug\r\n\r\n" % rid).encode()
        e = dict(rid=rid, kind=kind, close=False, body=b"")
        if kind == "s":
            method = r.choice(["GET", "HEAD", "POST", "DELETE"])
            f = r.randrange(4)
            target = "/s/f%d.txt?%s" % (f, rid)
            e["file"] = f
        else:
            method = r.choice(["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PROPFIND"] if kind == "p" else ["GET", "POST"])
            target = "/%s/%s" % (kind, rid)
        e["method"] = method
        e["target"] = target
        hs = [("Host", r.choice(["localhost", "a.example", "127.0.0.1:81"]))]
        version = "1.1"
        body = None
        chunked = None
        if method not in ("GET", "HEAD"):
            n = r.choice([0, 0, 1, 2, 5, 17, 100, 1000, 5000, 70000 if r.random() < 0.15 else 40])
            body = (smug * (n // len(smug) + 1))[:n] if r.random() < 0.7 else bytes(r.randrange(256) for _ in range(min(n, 2000)))
            if r.random() < 0.2:
                body = b"0\r\n\r\n" + smug
            if r.random() < 0.5:
                chunked = [r.choice([1, 2, 3, 10, 16, 255, 4096]) for _ in range(r.randrange(1, 6))]
            e["body"] = body
            if not body and chunked is None and method not in ("POST", "PUT") and r.random() < 0.5:
                body = None
        elif r.random() < 0.1:
            hs.append(("Content-Length", "0"))
        extra = [("User-Agent", "x"), ("X-Long", "y" * r.randrange(0, 300)), ("Accept", "*/*"), ("X-Cl", "Content-Length: 7"), ("Cookie", 'a="b"; c=d')]
        for h in extra:
            if r.random() < 0.3:
                hs.append(h)
        if r.random() < 0.03:
            hs.append(("Connection", r.choice(["close", "Close"])))
            e["close"] = True
        elif r.random() < 0.1:
            hs.append(("Connection", "keep-alive"))
        r.shuffle(hs)
        if r.random() < 0.05:
            version = "1.0"
            e["v10"] = True
            if not any(k == "Connection" and v.lower() == "keep-alive" for k, v in hs):
                e["close"] = True
            if chunked is not None:
                chunked = None
        raw = http.build_request(method, target, hs, body, version, None, chunked)
        if chunked is not None and r.random() < 0.2:
            # trailers are part of the message
            assert raw.endswith(b"0\r\n\r\n")
            raw = raw[:-2] + b"X-Trailer: " + rid.encode() + b"\r\n"
            for _ in range(r.choice([0, 0, 1, 2])):
                raw += r.choice([b"X-Other: GET /trailer HTTP/1.1", b"Content-Length: 5", b"x:", b"Host: other", b"A: " + b"b" * r.choice([1, 4090, 9000])]) + b"\r\n"
            raw += b"\r\n"
            e["chunkkind"] = "trailer"
        e["framing"] = "chunked" if chunked is not None else ("length" if body is not None else "none")
        return raw, e

    def gen_ambiguous(r, cid):
        """message whose extent is ambiguous or malformed: has to be rejected and nothing after it may be processed.
        returns (name, bytes)"""
        rid = "c%dAMB" % cid
        smug = ("GET /p/SMUG-%s HTTP/1.1\r\nHost: smug\r\n\r\n" % rid).encode()
        t = ("/p/%s" % rid).encode()
        P = b"POST " + t + b" HTTP/1.1\r\nHost: a\r\n"
        G = b"GET " + t + b" HTTP/1.1\r\nHost: a\r\n"
        n = b"%d" % len(smug)
        C = b"Transfer-Encoding: chunked\r\n"
        ch = b"%x\r\n%s\r\n0\r\n\r\n" % (len(smug), smug)
        v = {
            "cl-conflict": P + b"Content-Length: " + n + b"\r\nContent-Length: 3\r\n\r\n" + smug,
            "cl-conflict2": P + b"Content-Length: 0\r\nX: y\r\ncontent-length: " + n + b"\r\n\r\n" + smug,
            "cl-conflict3": P + b"Content-Length: " + n + b"\r\nContent-Length: 0\r\nContent-Length: " + n + b"\r\n\r\n" + smug,
            "cl-plus": P + b"Content-Length: +" + n + b"\r\n\r\n" + smug,
            "cl-minus": P + b"Content-Length: -" + n + b"\r\n\r\n" + smug,
            "cl-minus0": P + b"Content-Length: -0\r\n\r\n" + smug,
            "cl-empty": P + b"Content-Length: \r\n\r\n" + smug,
            "cl-hex": P + b"Content-Length: 0x" + n + b"\r\n\r\n" + smug,
            "cl-list": P + b"Content-Length: " + n + b", 0\r\n\r\n" + smug,
            "cl-junk": P + b"Content-Length: " + n + b"a\r\n\r\n" + smug,
            "cl-inner-space": P + b"Content-Length: 1 0\r\n\r\n" + smug,
            "cl-float": P + b"Content-Length: " + n + b".0\r\n\r\n" + smug,
            "cl-overflow": P + b"Content-Length: 18446744073709551616\r\n\r\n" + smug,
            "cl-overflow2": P + b"Content-Length: 9223372036854775808\r\n\r\n" + smug,
            "cl-get": G + b"Content-Length: " + n + b"\r\n\r\n" + smug,
            "te-get": G + C + b"\r\n" + ch,
            "te-head": b"HEAD " + t + b" HTTP/1.1\r\nHost: a\r\n" + C + b"\r\n" + ch,
            "te-get-cl0": G + b"Content-Length: 0\r\n" + C + b"\r\n" + ch,
            "te-unknown": P + b"Transfer-Encoding: gzip\r\n\r\n" + ch,
            "te-unknown-cl": P + b"Transfer-Encoding: xchunked\r\nContent-Length: 0\r\n\r\n" + ch,
            "te-list": P + b"Transfer-Encoding: gzip, chunked\r\n\r\n" + ch,
            "te-twice": P + C + C + b"\r\n" + ch,
            "te-suffix": P + b"Transfer-Encoding: chunked;q=1\r\nContent-Length: 0\r\n\r\n" + ch,
            "te-empty": P + b"Transfer-Encoding: \r\nContent-Length: 0\r\n\r\n" + ch,
            "ch-neg": P + C + b"\r\n-5\r\n" + smug,
            "ch-0x": P + C + b"\r\n0x5\r\nabcde\r\n0\r\n\r\n" + smug,
            "ch-overflow": P + C + b"\r\n1" + b"0" * 16 + b"\r\n" + smug,
            "ch-overflow2": P + C + b"\r\nfffffffffffffffff\r\n" + smug,
            "ch-nonhex": P + C + b"\r\n5g\r\nabcde\r\n0\r\n\r\n" + smug,
            "ch-empty": P + C + b"\r\n\r\n0\r\n\r\n" + smug,
            "ch-nocrlf": P + C + b"\r\n3\r\nabcXX0\r\n\r\n" + smug,
            "ch-short": P + C + b"\r\n2\r\nabc\r\n0\r\n\r\n" + smug,
            "ch-space": P + C + b"\r\n 3\r\nabc\r\n0\r\n\r\n" + smug,
            "hdr-space-colon": P + b"Content-Length : 0\r\n\r\n" + smug,
            "hdr-space-colon2": P + b"Transfer-Encoding : chunked\r\nContent-Length: 0\r\n\r\n" + ch,
            "hdr-nul": P + b"Content-Length: 0\x00" + n + b"\r\n\r\n" + smug,
            "hdr-bare-cr": P + b"X: y\rContent-Length: 0\r\n\r\n" + smug,
            "hdr-noname": P + b": x\r\nContent-Length: 0\r\n\r\n" + smug,
            "hdr-nocolon": P + b"garbage\r\nContent-Length: 0\r\n\r\n" + smug,
            "hdr-space-name": P + b"Content Length: 5\r\nContent-Length: 0\r\n\r\n" + smug,
            "line-extra": b"POST " + t + b" x HTTP/1.1\r\nHost: a\r\nContent-Length: 0\r\n\r\n" + smug,
            "post-nolen": P + b"\r\n" + smug,
            "host-twice": P + b"Host: b\r\nContent-Length: 0\r\n\r\n" + smug,
            "host-missing": b"POST " + t + b" HTTP/1.1\r\nContent-Length: 0\r\n\r\n" + smug,
            "host-bad": b"POST " + t + b" HTTP/1.1\r\nHost: a b\r\nContent-Length: 0\r\n\r\n" + smug,
            "version": b"POST " + t + b" HTTP/1.2\r\nHost: a\r\nContent-Length: 0\r\n\r\n" + smug,
            "version2": b"POST " + t + b" HTTP/2.0\r\nHost: a\r\nContent-Length: 0\r\n\r\n" + smug,
        }
        name = r.choice(sorted(v))
        return name, v[name]

    def unread(e):
        return e["kind"] in ("s", "e") and e["framing"] != "none"

    def one(cid):
        r = chk.rng("conn", cid)
        exp = []
        raw = b""
        nreq = r.choice([1, 2, 3, 5, 8, 12])
        for k in range(nreq):
            if r.random() < 0.06:
                # redundant CL together with chunked: chunked has to win
                rid = "c%dk%d" % (cid, k)
                body = b"te-wins-%s" % rid.encode()
                x = ("POST /p/%s HTTP/1.1\r\nHost: a\r\n" % rid).encode() + r.choice([
                    b"Content-Length: 4\r\nTransfer-Encoding: chunked\r\n\r\n", b"Transfer-Encoding: Chunked\r\nContent-Length: 1000\r\n\r\n"])
                x += b"%x\r\n" % len(body) + body + b"\r\n0\r\n\r\n"
                e = dict(rid=rid, kind="p", method="POST", target="/p/" + rid, body=body, close=False, framing="cl+te", mayreject=True)
            elif r.random() < 0.05:
                rid = "c%dk%d" % (cid, k)
                body = b"GET /p/SMUG-%s HTTP/1.1\r\n\r\n" % rid.encode()
                n = b"%d" % len(body)
                x = ("PUT /p/%s HTTP/1.1\r\nHost: a\r\n" % rid).encode() + r.choice([
                    b"Content-Length: " + n + b"\r\nContent-Length: " + n + b"\r\n\r\n", b"Content-Length: 000" + n + b"\r\n\r\n"]) + body
                e = dict(rid=rid, kind="p", method="PUT", target="/p/" + rid, body=body, close=False, framing="cl-odd", mayreject=True)
            else:
                x, e = gen_valid(r, cid, k)
            exp.append(e)
            raw += x
        amb = None
        if r.random() < 0.6:
            amb, x = gen_ambiguous(r, cid)
            raw += x + b"GET /p/SMUG-c%dTAIL HTTP/1.1\r\nHost: b\r\n\r\n" % cid
        c = http.Conn(port=srv.port, timeout=60)
        mode = r.choice(["whole", "random", "tiny", "halves"])
        if mode == "whole":
            cuts = []
        elif mode == "random":
            cuts = sorted(r.randrange(1, len(raw)) for _ in range(r.randrange(1, 12)))
        elif mode == "tiny":
            a = r.randrange(max(1, len(raw) - 300))
            cuts = list(range(a, min(len(raw), a + 60)))
        else:
            cuts = [len(raw) // 2]
        # a client that stops reading is not part of this property: read while sending
        import threading
        st = {}
        r2 = chk.rng("delay", cid)

        def snd():
            st["sent"] = c.send_segments(raw, cuts, r2.choice([0.0005, 0.0005, 0.003, 0.02 if len(cuts) < 15 else 0.001]) if mode != "whole" else 0)
        th = threading.Thread(target=snd, daemon=True)
        th.start()
        wit = {"stream": raw, "expect": [(e["method"], e["target"]) for e in exp], "ambiguous": amb, "mode": mode}
        got = []
        ended = None
        try:
            for i, e in enumerate(exp):
                m = e["method"]
                rsp = c.read_response(m)
                got.append(rsp)
                if e.get("mayreject") and rsp.status >= 400:
                    ended = "rejected"
                    break
                if e["kind"] == "p":
                    if rsp.status != 200 or rsp.get(b"x-target") != e["target"].encode():
                        chk.violation("pipeline-order", "response %d does not belong to request %s: %r" % (i, e["target"], rsp), wit)
                        return
                    if rsp.get(b"x-sha") != hashlib.sha1(e["body"]).hexdigest().encode():
                        chk.violation("body-mismatch", "backend saw another body for %s" % e["target"], wit)
                        return
                    if m != "HEAD" and rsp.body != b"body-of-" + e["target"].encode():
                        chk.violation("response-body", "wrong response body for %s: %r" % (e["target"], rsp.body), wit)
                        return
                elif e["kind"] == "s":
                    if m in ("GET", "HEAD"):
                        if rsp.status != 200 or (m == "GET" and rsp.body != b"file-%d" % e["file"]):
                            chk.violation("pipeline-order-static", "response %d wrong for %s: %r" % (i, e["target"], rsp), wit)
                            return
                    elif rsp.status != 405:
                        chk.violation("pipeline-order-static", "response %d wrong for %s %s: %r" % (i, m, e["target"], rsp), wit)
                        return
                else:
                    if rsp.status != 200 or rsp.body != b"resp:" + e["target"].encode():
                        chk.violation("pipeline-order-respond", "response %d wrong for %s: %r %r" % (i, e["target"], rsp, rsp.body), wit)
                        return
                chk.ok(framing=e["framing"], method=m, mode=mode)
                if e["close"]:
                    ended = "close"
                    break
                if not rsp.keepalive():
                    ended = "server-close"
                    # a server may close early only when it answered without consuming the body
                    if not unread(e) and not e.get("v10"):
                        chk.violation("early-close", "connection closed after request %d (%s %s)" % (i, m, e["target"]), wit)
                        return
                    break
            if ended is None and amb is not None:
                try:
                    rsp = c.read_response("GET")
                    got.append(rsp)
                    if rsp.status < 400:
                        chk.violation("ambiguous-accepted:" + amb, "ambiguous message %s was accepted: %r" % (amb, rsp), wit)
                        return
                    chk.count("reject_status", "%s:%d" % (amb, rsp.status))
                except http.Closed:
                    chk.count("reject_status", "%s:closed" % amb)
                ended = "amb"
            if ended is None:
                c.shut_wr()
            # nothing more may come
            c.timeout = 60
            try:
                more = c.read_response("GET")
                chk.violation("extra-response:%s" % (amb if ended == "amb" else ended), "response after the connection had to end (%s): %r" % (ended, more), wit)
                return
            except http.Closed:
                pass
            chk.ok(amb=str(amb) if ended == "amb" else str(ended))
        except http.Closed as ex:
            # connection ended before the expected response
            last = exp[len(got) - 1] if got else None
            if last is not None and unread(last):
                chk.ok(ended="unread-body-close")  # answered early, rest of the body unread
            else:
                # a reset may overtake data only when the server closed with unread input; retry handled by caller
                st["retry"] = "closed before response %d of %d (%s)" % (len(got), len(exp), ex)
        except http.ProtoError as ex:
            chk.violation("proto", "malformed response stream: %s" % ex, wit)
        except http.Timeout as ex:
            st["retry"] = "no answer to request %d of %d" % (len(got), len(exp))
        finally:
            c.close()
            th.join(30)
        return st.get("retry"), wit

    def conn(cid):
        res = one(cid)
        if res and res[0]:
            res2 = one(cid)
            if res2 and res2[0]:
                chk.violation("lost-response", res2[0], res2[1])
            else:
                chk.inconcl("not reproducible: %s" % res[0])
        if cid < 5:
            chk.sample(res[1] if res else {"conn": cid})

    N = chk.n(5000)
    check.parallel(12, conn, range(N))
    recs = px.take()
    for rec in recs:
        if rec.error:
            if rec.error.startswith("eof"):
                continue
            chk.violation("backend-malformed", "malformed request at the backend: %s" % rec.error, {"head": rec.raw_head})
        elif b"SMUG" in rec.target or b"AMB" in rec.target:
            chk.violation("smuggled", "bytes of a body / of a rejected message were processed as request: %s" % rec.target.decode("latin-1"),
                          {"head": rec.raw_head})
        else:
            chk.ok(1)
    srv.verify("end")
    srv.stop()
    px.stop()


if __name__ == "__main__":
    c = check.Check("P03", rule="one evaluation = one response matched to its request by the framing model, or one backend request record classified; "
                    "distinct = framing kinds, methods, segmentation modes and ambiguous-message kinds observed")
    check.run(c, run, min_evals=500)
