"""P09: malformed, oversized or unsupported requests are refused with the right status and never handled; valid ones never are."""
import re
import time

from vf import backends, build, check, http, server

TCHAR = b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def run(chk):
    build.build("asan")
    hits = []

    def handler(rec):
        hits.append(rec.target)
        return [("send", b"HTTP/1.1 200 OK\r\nX-Handled: backend\r\nX-Seen: " + rec.target + b"\r\nContent-Length: 2\r\n\r\n" + (b"" if rec.method == b"HEAD" else b"ok"))]
    px = backends.HttpStub(handler)
    chk.cleanup(px.stop)
    conf = """keepalive.requests 100000;
if req.path =^ "/p/" { proxy "%s"; } else { header.add "X-Handled" => "respond"; header.add "X-Seen" => "%%{req.raw_path}"; header.add "X-Echo" => "[%%{req.header[X-Test]}]"; respond 200 => "ok"; }
""" % px.addr()
    srv = server.Server(chk, conf, modules=["mod_proxy"], workers=3, setup="io.timeout 60;").start()

    def value(r):
        k = r.randrange(8)
        if k == 0:
            return b""
        if k == 1:
            return b'"' + bytes(r.choice(b"ab c\xff,;:()<>@/[]?={}\t") for _ in range(r.randrange(0, 8))) + r.choice([b"", b'\\"x', b"\\\\", b"\\a"]) + b'"'
        if k == 2:
            return bytes(r.choice(range(0x80, 0x100)) for _ in range(r.randrange(1, 10)))
        if k == 3:
            return b"a" * r.choice([10, 100, 1000, 4000, 8191, 8192, 8193, 20000])
        return bytes(r.choice(b"abcXYZ019 -_.,;:/\\'()[]{}=+*&^%$#@!~|<>?\t") for _ in range(r.randrange(1, 30))).strip(b" \t") or b"v"

    def valid(r, uid):
        """-> dict(method,target,version,headers,body,eol, echo)"""
        q = {"version": r.choice([b"1.1", b"1.1", b"1.1", b"1.0"]), "eol": r.choice([b"\r\n"] * 5 + [b"\n"]), "pre": r.choice([b""] * 6 + [b"\r\n", b"\n", b"\r\n\r\n"]), "body": b""}
        q["method"] = r.choice([b"GET"] * 4 + [b"HEAD", b"POST", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"PROPFIND", b"FOO", bytes(r.choice(TCHAR) for _ in range(r.randrange(1, 12)))])
        seg = bytes(r.choice(b"abcXYZ0189-._~!$&'()*+,;=:@") for _ in range(r.randrange(0, 20)))
        q["target"] = r.choice([b"/p/", b"/r/", b"/r/"]) + b"u%d-" % uid + seg + r.choice([b"", b"", b"?a=b&c", b"?", b"?x=?/", b"%41", b"/" + b"b" * r.choice([10, 200, 4000, 8192 - 60])])
        if r.random() < 0.06:
            q["target"] = q["target"][:8192].ljust(r.choice([8190, 8191, 8192]), b"c")
        q["host"] = r.choice([b"localhost", b"a.example", b"A.Example.", b"127.0.0.1", b"127.0.0.1:8080", b"[::1]:80", b"[::1]", b"x_y.z", b"a-b.c:1"])
        hs = []
        if q["version"] == b"1.1" or r.random() < 0.7:
            hs.append((b"Host", q["host"]))
        if r.random() < 0.06:
            q["target"] = r.choice([b"http://", b"https://"]) + r.choice([b"h.example", b"u@h:81", b"[::1]"]) + q["target"][:8000]
        q["raw_path"] = q["target"] if q["target"].startswith(b"/") else b"/" + q["target"].split(b"/", 3)[3]
        q["echo"] = None
        if r.random() < 0.5:
            v = value(r)
            q["echo"] = v
            hs.append((b"X-Test", v))
        for _ in range(r.choice([0, 1, 3, 10, 40])):
            hs.append((b"X-" + bytes(r.choice(TCHAR) for _ in range(r.randrange(1, 10))), value(r)))
        if q["method"] == b"POST" or (q["method"] not in (b"GET", b"HEAD") and r.random() < 0.4):
            q["body"] = r.randbytes(r.choice([0, 1, 100, 3000]))
            if r.random() < 0.5 or q["version"] == b"1.0":
                hs.append((b"Content-Length", b"%d" % len(q["body"])))
                q["payload"] = q["body"]
            else:
                hs.append((b"Transfer-Encoding", r.choice([b"chunked", b"Chunked"])))
                q["payload"] = (b"%x\r\n" % len(q["body"]) + q["body"] + b"\r\n" if q["body"] else b"") + b"0\r\n\r\n"
        else:
            q["payload"] = b""
        if q["version"] == b"1.1" and r.random() < 0.05 and q["payload"]:
            hs.append((b"Expect", b"100-continue"))
        r.shuffle(hs)
        q["headers"] = hs
        return q

    def lines(q, r):
        ls = [q["method"] + b" " + q["target"] + b" HTTP/" + q["version"]]
        for k, v in q["headers"]:
            ls.append(k + b":" + r.choice([b" ", b" ", b" ", b"", b"  ", b"\t", b" \t "]) + v + r.choice([b"", b"", b"", b" ", b"\t", b" \t"]))
        return ls

    def assemble(q, ls):
        return q["pre"] + q["eol"].join(ls) + q["eol"] * 2

    # every mutation: (name, allowed status, function(r, q, ls) -> message head or None)
    def mut(r, q):
        ls = lines(q, r)
        eol = q["eol"]
        ctl = bytes([r.choice([0, 1, 2, 8, 11, 12, 14, 27, 31, 127])])
        anyh = r.randrange(1, len(ls)) if len(ls) > 1 else None
        k = r.randrange(36)
        if k == 0 and anyh:
            i = ls[anyh].find(b":") + 1
            j = r.randrange(i, len(ls[anyh]) + 1)
            ls[anyh] = ls[anyh][:j] + ctl + ls[anyh][j:]
            return "ctl-value", {400}, assemble(q, ls)
        if k == 1 and anyh:
            i = ls[anyh].find(b":")
            j = r.randrange(0, i + 1)
            ls[anyh] = ls[anyh][:j] + r.choice([ctl, b" ", b"\t", b"(", b"/", b'"', b"[", b"{", b"@", b",", b";", b"?", b"=", b"\\"]) + ls[anyh][j:]
            if j == 0 and ls[anyh][:1] in b" \t":
                return None         # looks like a folded line
            return "bad-name", {400}, assemble(q, ls)
        if k == 2:
            ls.insert(r.randrange(1, len(ls) + 1), r.choice([b"nocolon", b"no colon here", b":novalue", b"X Y: z", b": x", b"GET / HTTP/1.1", b"X-Bad\x00: 1"]))
            return "bad-line", {400}, assemble(q, ls)
        if k == 3:
            ls.insert(1, r.choice([b" folded: first", b"\tX: y"]))
            return "fold-first", {400}, assemble(q, ls)
        if k == 4:
            ls[0] = q["method"] + b" " + q["target"] + b" " + r.choice([b"HTTP/2.0", b"HTTP/1.2", b"HTTP/0.9", b"HTTP/1.10", b"HTTP/11.1", b"HTTP/3.14159", b"HTTP/01.1", b"HTTP/1.01", b"HTTP/0.0"])
            return "version", {505}, assemble(q, ls)
        if k == 5:
            ls[0] = q["method"] + b" " + q["target"] + r.choice([b" HTTP/1", b" http/1.1", b" HTTQ/1.1", b" HTTP/1.", b" HTTP/.1", b" HTTP/1.1x", b" HTTP 1.1", b" HTTP/1,1", b" ", b"", b" FOO", b" HTTP/-1.1", b" HTTP/1.1 x"])
            return "bad-version", {400}, assemble(q, ls)
        if k == 6:
            a, b_ = r.choice([(b"  ", b" "), (b" ", b"  "), (b"\t", b" "), (b" ", b"\t"), (b"", b" "), (b" ", b" x ")])
            ls[0] = q["method"] + a + q["target"] + b_ + b"HTTP/" + q["version"]
            return "separators", {400}, assemble(q, ls)
        if k == 7:
            j = r.randrange(0, len(q["method"]) + 1)
            ls[0] = q["method"][:j] + r.choice([b"(", b")", b"/", b"[", b'"', b",", ctl, b"@", b"{", b"=", b"<"]) + q["method"][j:] + ls[0][len(q["method"]):]
            return "bad-method", {400}, assemble(q, ls)
        if k in (8, 9):
            q["version"] = b"1.1"
            q["headers"] = [h for h in q["headers"] if h[0] != b"Host"]
            if k == 9:
                q["headers"].insert(r.randrange(len(q["headers"]) + 1), (b"Host", r.choice([b"", b" ", b"\t"])))
            return "no-host", {400}, assemble(q, lines(q, r))
        if k == 10:
            q["headers"] = [h for h in q["headers"] if h[0] != b"Host"]
            for n in (b"Host", r.choice([b"Host", b"host", b"HOST"])):
                q["headers"].insert(r.randrange(len(q["headers"]) + 1), (n, r.choice([q["host"], b"other"])))
            return "two-hosts", {400}, assemble(q, lines(q, r))
        if k == 11:
            q["version"] = b"1.1"
            if not q["target"].startswith(b"/"):
                return None
            q["headers"] = [h for h in q["headers"] if h[0] != b"Host"] + [(b"Host", r.choice([b"a b", b"a/b", b"a@b", b"a:b", b"[::1", b"::1]", b"a:80:80", b"a?b", b"a#b", b"a\\b", b"a,b c", b"[", b"a\xff", b"<a>", b"a:8x", b":80"]))]
            return "bad-host", {400}, assemble(q, lines(q, r))
        if k == 12:
            q["target"] = r.choice([b"foo", b"r/x", b"http:foo", b"ftp://h/", b"http://", b"//", b"http:///x", b"http://h", b"?x", b"#", b"", b"*x", b"http//h/x", b"://h/", b"\\x", b"http://a b/", b"h:80", b"http://h:80x/"])
            if q["target"] in (b"//",):
                return None
            return "bad-target", {400}, assemble(q, lines(q, r))
        if k == 13:
            if q["method"] == b"OPTIONS":
                return None
            q["target"] = b"*"
            return "star", {400}, assemble(q, lines(q, r))
        if k == 14:
            j = r.randrange(1, len(q["target"]) + 1)
            q["target"] = q["target"][:j] + bytes([r.choice(list(range(0x80, 0x100)) + [0, 1, 31, 127])]) + q["target"][j:]
            if len(q["target"]) > 8192:
                return "long-and-bad", {400, 414}, assemble(q, lines(q, r))
            return "bad-target-byte", {400}, assemble(q, lines(q, r))
        if k in (15, 16):
            n = r.choice([8193, 8193, 8194, 9000, 20000, 60000])
            q["target"] = b"/p/u-long-" + b"x" * (n - 10)
            return "uri-too-long", {413, 414}, assemble(q, lines(q, r))
        if k in (17, 18):
            n = r.choice([65537, 66000, 70000, 140000, 300000, 600000])
            while sum(len(a) + len(b_) + 4 for a, b_ in q["headers"]) < n:
                q["headers"].append((b"X-Big", b"y" * r.choice([1000, 8000, 30000, 70000])))
            return "header-too-large", {413}, assemble(q, lines(q, r))
        if k == 19:
            q["headers"] = [h for h in q["headers"] if h[0] not in (b"Transfer-Encoding", b"Content-Length", b"Expect")] + [(b"Transfer-Encoding", r.choice([b"gzip", b"foo", b"chunked, gzip", b"gzip, chunked", b"chunkedx", b"xchunked", b"chunked;q=1", b"deflate"]))]
            return "transfer-coding", {501}, assemble(q, lines(q, r))
        if k == 20:
            q["headers"] = [h for h in q["headers"] if h[0] not in (b"Transfer-Encoding", b"Content-Length", b"Expect")] + [(b"Transfer-Encoding", b"chunked")] * 2
            return "chunked-twice", {400}, assemble(q, lines(q, r))
        if k in (21, 22):
            q["headers"] = [h for h in q["headers"] if h[0] not in (b"Transfer-Encoding", b"Content-Length", b"Expect")]
            v = r.choice([b"-1", b"+5", b"5x", b"0x10", b"", b"1 2", b"1,2", b"5, 5", b"five", b"1.0", b"1e3", b"99999999999999999999999", b"9223372036854775808", b"-0", b"\xb2"])
            q["headers"].append((b"Content-Length", v))
            return "bad-length", {400, 413}, assemble(q, lines(q, r))
        if k == 23:
            q["headers"] = [h for h in q["headers"] if h[0] not in (b"Transfer-Encoding", b"Content-Length", b"Expect")] + [(b"Content-Length", b"5"), (b"Content-Length", b"6")]
            return "two-lengths", {400}, assemble(q, lines(q, r))
        if k == 24:
            q["headers"] = [h for h in q["headers"] if h[0] not in (b"Transfer-Encoding", b"Content-Length", b"Expect")] + [(b"Content-Length", b"5")]
            q["method"] = r.choice([b"GET", b"HEAD"])
            return "get-body", {400}, assemble(q, lines(q, r))
        if k == 25:
            q["headers"] = [h for h in q["headers"] if h[0] not in (b"Transfer-Encoding", b"Content-Length", b"Expect")]
            q["method"] = b"POST"
            return "post-no-length", {411}, assemble(q, lines(q, r))
        if k == 26:
            q["headers"] = [h for h in q["headers"] if h[0] != b"Expect"] + [(b"Expect", r.choice([b"foo", b"100-continu", b"100-continuex", b"200-ok", b"100", b"100-continue, foo"]))]
            return "expectation", {417}, assemble(q, lines(q, r))
        if k == 27:
            q["version"] = b"1.0"
            q["headers"] = [h for h in q["headers"] if h[0] != b"Expect"] + [(b"Expect", b"100-continue")]
            return "expectation-1.0", {417}, assemble(q, lines(q, r))
        if k == 28:
            q["headers"].append((b"X-Q", r.choice([b'"open', b'"', b'a"b', b'"a" "b', b'"a\\"', b'"\\'])))
            return "open-quote", {400}, assemble(q, lines(q, r))
        if k == 29 and anyh:
            i = ls[anyh].find(b":") + 1
            j = r.randrange(i, len(ls[anyh]) + 1)
            ls[anyh] = ls[anyh][:j] + b"\r" + r.choice([b"x", b"\r", b":", b"X: y"]) + ls[anyh][j:]
            return "bare-cr", {400}, assemble(q, ls)
        if k == 30:
            m = assemble(q, ls)
            j = len(q["pre"]) + r.randrange(0, len(ls[0]) + 1)
            if j == len(q["pre"]):
                return "nul", {400}, m[:j] + b"\0" + m[j:]
            return "nul", {400} if len(q["target"]) <= 8192 else {400, 414}, m[:j] + b"\0" + m[j:]
        if k == 31:
            return "garbage", {400}, r.choice([b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", b"\0\0\0\0", b"\xff\xfe\r\n", b"SSH-2.0-x\r\n\r\n", b"\x80\x2e\x01\x00\x02", b"(GET / HTTP/1.1\r\n\r\n", b"GET\r\n\r\n", b"GET /\r\n\r\n", b"GET / \r\n\r\n", b" GET / HTTP/1.1\r\n\r\n", b"\x01", b"GET / HTTP/1.1\r\r\n\r\n"])
        if k == 32:     # a very long header without end
            n = r.choice([70000, 150000, 400000, 1500000])
            return "endless", {413, 414}, r.choice([b"GET /p/u-endless", b"GET / HTTP/1.1\r\nHost: a\r\nX: ", b"GET / HTTP/1.1\r\nHost: ", b"G", b"GET / HTTP/1.1\r\nX"]) + b"a" * n
        if k == 33:     # two problems at once
            q["version"] = b"1.1"
            q["headers"] = [h for h in q["headers"] if h[0] not in (b"Host", b"Expect")] + [(b"Expect", b"foo")]
            return "host+expect", {400, 417}, assemble(q, lines(q, r))
        return None

    def one(i, attempt=0):
        r = chk.rng("m", i)
        c = http.Conn(port=srv.port, timeout=40)
        try:
            nvalid = r.choice([0, 0, 1, 2, 5])
            for j in range(nvalid + 1):
                uid = i * 10 + j
                q = valid(r, uid)
                if j < nvalid or r.random() < 0.25:
                    if sum(len(a) + len(b_) + 6 for a, b_ in q["headers"]) + len(q["target"]) > 64000:
                        continue
                    msg = assemble(q, lines(q, r)) + q["payload"]
                    cuts = sorted({r.randrange(1, len(msg)) for _ in range(r.choice([0, 0, 1, 3]))})
                    c.send_segments(msg, cuts, 0.001 if cuts else 0)
                    wit = {"request": msg[:3000]}
                    rsp = c.read_response(q["method"].decode("latin-1"))
                    if rsp.status != 200 or not rsp.get(b"x-handled"):
                        return "valid-refused", "valid request answered %d: %r" % (rsp.status, msg[:500]), wit
                    if rsp.get(b"x-seen") != q["raw_path"]:
                        return "target", "handler saw target %r for %r" % (rsp.get(b"x-seen"), msg[:300]), wit
                    if rsp.get(b"x-handled") == b"respond" and q["echo"] is not None and rsp.get(b"x-echo") != b"[" + q["echo"] + b"]":
                        return "echo", "handler saw header value %r, sent %r" % (rsp.get(b"x-echo"), q["echo"][:200]), wit
                    chk.ok(valid=q["version"].decode(), method=q["method"].decode("latin-1") if len(q["method"]) < 9 and q["method"].isalpha() and q["method"].isupper() else "token", eol=len(q["eol"]))
                    if not rsp.keepalive():
                        return None
                    continue
                m = None
                while m is None:
                    q = valid(r, uid)
                    q["target"] = q["target"][:2000] if q["target"].startswith(b"/") else b"/p/u%d-" % uid
                    q["headers"] = [h for h in q["headers"] if len(h[1]) < 3000]
                    m = mut(r, q)
                name, status, msg = m
                mark = b"SMUG%d" % uid
                tail = q["payload"] + b"GET /p/" + mark + b" HTTP/1.1\r\nHost: a\r\n\r\n" if r.random() < 0.5 and name not in ("garbage", "endless") else b""
                data = msg + tail
                if len(data) < 3000:
                    cuts = sorted({r.randrange(1, len(data)) for _ in range(r.choice([0, 0, 1, 3]))}) if len(data) > 1 else []
                else:
                    cuts = []
                t = time.time()
                c.send_segments(data, cuts, 0.001 if cuts else 0)
                wit = {"mutation": name, "request": data[:3000]}
                method = "GET"
                mm = re.match(rb"^[\r\n]*(\S*)", msg)
                if mm and mm.group(1) == b"HEAD":
                    method = "HEAD"
                try:
                    rsp = c.read_response(method)
                except http.Closed as e:
                    if c.reset and tail:
                        return "reset", "%s: connection reset before an answer: %r" % (name, data[:300]), wit
                    return "unanswered:" + name, "%s: no answer (%s): %r" % (name, e, data[:300]), wit
                wit["head"] = rsp.raw_head
                if rsp.status not in status:
                    return "status:" + name, "%s answered %d, expected %s: %r" % (name, rsp.status, sorted(status), data[:400]), wit
                if rsp.get(b"x-handled"):
                    return "handled:" + name, "a refused request was handled: %r" % data[:300], wit
                if rsp.keepalive():
                    return "keepalive:" + name, "%s: connection kept open after status %d" % (name, rsp.status), wit
                rest = c.read_all()
                if rest and method != "HEAD":
                    return "extra:" + name, "%s: %r after the error response" % (name, rest[:200]), wit
                if any(mark in h for h in hits[-200:]):
                    return "smuggled:" + name, "bytes after a refused request were handled: %r" % data[:300], wit
                if time.time() - t > 20:
                    return "slow:" + name, "%s: refused only after %.1f s" % (name, time.time() - t), wit
                chk.ok(mutation="%s %d" % (name, rsp.status), position=min(j, 3))
                return None
        except (http.Closed, http.ProtoError, http.Timeout) as e:
            return "broken:%s" % type(e).__name__, "no valid answer: %s (request %r)" % (e, locals().get("msg", b"")[:300]), {"request": locals().get("msg", b"")[:3000]}
        finally:
            c.close()

    def twice(i):
        v = one(i)
        if v:
            v2 = one(i, 1)
            if v2:
                chk.violation(*v2)
            elif v[0] == "reset":
                chk.count("lost answer to reset", "1")
            else:
                chk.inconcl(v[1])
    check.parallel(12, twice, range(chk.n(9000)))
    # no refused request reached the backend
    for h in hits:
        if b"SMUG" in h or b"u-long" in h or b"u-endless" in h:
            chk.violation("backend-hit", "the backend got %r" % h[:200], {})
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P09", rule="one evaluation = one request with a known classification (valid, or one of 30 defects) compared with status, handling, connection fate and time of the answer; distinct = mutation x status, versions, methods, line ends")
    check.run(c, run, min_evals=4000)
