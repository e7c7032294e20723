"""P08: 304 only if the validator matches the current file; entity tags change whenever size or modification time change."""
import calendar
import email.utils
import os
import re
import time
import zlib

from vf import build, check, http, server

USES = {"def": None, "im": ["inode", "mtime"], "sm": ["size", "mtime"], "s": ["size"], "m": ["mtime"], "none": []}


def httpdate(t):
    return time.strftime("%a, %d %b %Y %H:%M:%S GMT", time.gmtime(t)).encode()


def run(chk):
    build.build("asan")
    root = os.path.join(chk.scratch, "www")
    os.makedirs(root)
    branches = "\n".join('if req.path =^ "/%s/" { alias "/%s/" => "%s/"; %s static; }' % (
        k, k, root, "" if v is None else "etag.use [ %s ];" % ", ".join('"%s"' % x for x in v)) for k, v in USES.items())
    conf = """keepalive.requests 100000; mime_types [ "" => "text/plain" ];
%s
if req.path =^ "/z/" { alias "/z/" => "%s/"; static; deflate; }
if req.path =^ "/post/" { respond 200 => "%%{req.path} aaaaaaaaaaaaaaaaaaaaaaaaaa"; header.add "ETag" => "\\"abc\\""; deflate; }
if req.path =^ "/sync/" { alias "/sync/" => "%s/"; stat.async false; static; }
""" % (branches, root, root)
    srvs = [server.Server(chk, conf, modules=["mod_deflate"], workers=3, name="ttl10").start(),
            server.Server(chk, conf, modules=["mod_deflate"], workers=2, setup="stat_cache.ttl 0;", name="ttl0").start()]
    tags = {}           # (url, etag) -> (size, mtime)
    state_tag = {}      # (server, url, size, mtime, ino) -> etag

    def history(i):
        r = chk.rng("h", i)
        si = r.randrange(2)
        srv = srvs[si]
        fn = "f%d" % i
        path = os.path.join(root, fn)
        base = r.choice([0, 1, 86399, 951782400, 1000000000, 1500000000, int(time.time()) - 5, int(time.time()) + 1000, 4102444800, 1711846800])
        size = r.choice([0, 1, 9, 10, 99, 100, 1000, 5000, 20000, 70000])
        mtime = base
        seen = []       # etags/dates of earlier states
        c = http.Conn(port=srv.port, timeout=60)
        gen = 0
        for step in range(r.randrange(4, 10)):
            k = r.randrange(8) if step else 0
            if step == 0 or k < 3:
                size = max(0, size + r.choice([-10, -1, 1, 1, 2, 9, 10, 90, 100, 1000, -100]))
                if r.random() < 0.5:
                    mtime = max(0, mtime + r.choice([-1, 1, 10, 100, 3600, -3600, 86400]))
            elif k == 3:
                mtime = max(0, mtime + r.choice([-100, -10, -1, 1, 2, 10, 60, 3600, 10000, 86400, 1000000]))
            elif k == 4:                # swap digits between size and mtime changes
                d = r.choice([1, 10, 100])
                size, mtime = max(0, size + d), max(0, mtime - d)
            gen += 1
            data = bytes(r.choices(b"abcdefgh \n", k=size))
            tmp = path + ".tmp"
            how = r.choice(["rename", "inplace"])
            with open(tmp if how == "rename" else path, "wb") as f:
                f.write(data)
            os.utime(tmp if how == "rename" else path, ns=(mtime * 10 ** 9 + r.randrange(10 ** 9),) * 2)
            if how == "rename":
                os.rename(tmp, path)
            st = os.stat(path)
            mtime = int(st.st_mtime)
            lm = httpdate(mtime)
            cur = {}
            for q in range(r.randrange(2, 9)):
                br = r.choice(list(USES) + ["def", "def", "z", "sync"])
                url = "/%s/%s" % (br, fn)
                method = r.choice(["GET", "GET", "GET", "HEAD"])
                hs = []
                if br == "z":
                    hs.append(("Accept-Encoding", r.choice(["gzip", "deflate", "identity", "gzip"])))
                vkey = (br, hs[0][1] if hs else None)
                known = cur.get(vkey)
                inm = ims = None
                k = r.randrange(12)
                if k < 5 and (known or seen):
                    pool = [t for t in [known] * 3 + [x for x, _ in seen[-6:]] if t]
                    t = r.choice(pool) if pool else b'"1"'
                    inm = r.choice([t, b"W/" + t, b'"zzz", ' + t, t + b', "a"', b'"%s"' % t[1:-2], t[:-1], b'"1' + t[1:], b'"",' + t, t.replace(b'"', b""), t + b","])
                elif k == 5:
                    inm = r.choice([b"*", b'"', b'""', b"", b'"abc"', b"0", b'W/""'])
                if k >= 4 and k < 10:
                    d = r.choice([0, 0, 0, -1, 1, -3600, 3600, 86400, -86400, 10 ** 8])
                    ims = r.choice([httpdate(max(0, mtime + d))] * 6 + [b"", b"garbage", lm[:-1], lm + b"x", lm[:10], b"Sat, 99 Foo 2005 21:20:01 GMT", lm + b"; length=%d" % size, b"; length=3",
                                    email.utils.formatdate(mtime).encode(), b"0", b"-1", lm.lower(), seen[-1][1] if seen else lm, lm + b" " + lm, lm.replace(b"GMT", b"EST"), time.strftime("%A, %d-%b-%y %H:%M:%S GMT", time.gmtime(mtime)).encode()])
                if inm is not None:
                    hs.append(("If-None-Match", inm))
                if ims is not None:
                    hs.append(("If-Modified-Since", ims))
                r.shuffle(hs)
                c.send(http.build_request(method, url, hs))
                wit = {"url": url, "method": method, "headers": hs, "size": size, "mtime": mtime, "known_etag": known, "how": how, "server": srv.name}
                try:
                    rsp = c.read_response(method)
                except (http.Closed, http.ProtoError) as e:
                    chk.violation("broken", "no valid response: %s %r" % (e, wit), wit)
                    return
                etag = rsp.get(b"etag")
                wit["head"] = rsp.raw_head
                if rsp.status == 400 and any(v.count(b'"') % 2 for k, v in hs if isinstance(v, bytes)):
                    # an unterminated quoted string makes the header invalid
                    chk.ok(decision="400 open quote")
                    c.close()
                    c = http.Conn(port=srv.port, timeout=60)
                    continue
                if rsp.status not in (200, 304):
                    chk.violation("status%d" % rsp.status, "status %d for %r" % (rsp.status, wit), wit)
                    return
                if rsp.get(b"last-modified") != lm:
                    chk.violation("last-modified", "Last-Modified %r, file has %r (%r)" % (rsp.get(b"last-modified"), lm, wit), wit)
                    return
                if (etag is None) != (br == "none"):
                    chk.violation("etag-presence", "entity tag %r with etag.use %s" % (etag, USES.get(br)), wit)
                    return
                if etag is not None:
                    uses = USES.get(br) or ["size", "mtime"]
                    ident = tuple(([size] if "size" in uses else []) + ([mtime] if "mtime" in uses else []))
                    enc = rsp.get(b"content-encoding") if rsp.status == 200 else None
                    if br != "z" or rsp.status == 200:
                        old = tags.setdefault((url, etag), (ident, enc))
                        if old != (ident, enc):
                            chk.violation("etag-collision", "entity tag %r of %s stands for %r and %r" % (etag, url, old, (ident, enc)), wit)
                            return
                    if not re.match(rb'^(W/)?"[^"]+"$', etag):
                        chk.violation("etag-syntax", "entity tag %r" % etag, wit)
                        return
                    if br != "z":
                        sk = (url, size, mtime, st.st_ino)
                        if state_tag.setdefault(sk, etag) != etag:
                            chk.violation("etag-unstable", "entity tag %r, was %r for the same file" % (etag, state_tag[sk]), wit)
                            return
                # --- reference decision
                cands = {etag} if etag else set()
                if known:
                    cands.add(known)
                m_inm = None
                if inm is not None:
                    m_inm = any(t and t in inm for t in cands)
                m_ims = None
                if ims is not None:
                    v = ims.split(b";")[0]
                    if v == lm:
                        m_ims = True
                    else:
                        try:
                            t = calendar.timegm(time.strptime(v.decode("latin-1"), "%a, %d %b %Y %H:%M:%S GMT"))
                            m_ims = t >= mtime
                            if m_ims and httpdate(t) != v:
                                m_ims = "maybe"     # not the canonical spelling: 304 allowed, not required
                        except ValueError:
                            m_ims = "maybe" if re.match(rb"(?i)^\w+, *\d+ +\w+ +\d+ +\d+:\d+:\d+ gmt$", v) and v.lower() == lm.lower() else False
                if inm is not None:
                    can304 = bool(m_inm)
                else:
                    can304 = bool(m_ims)
                must304 = (m_inm is True and m_ims in (None, True)) or (inm is None and m_ims is True)
                if br == "z" and known is None:
                    must304 = False
                if rsp.status == 304:
                    if not can304:
                        chk.violation("wrong304:%s" % br, "304 although the validator does not match: %r" % wit, wit)
                        return
                    if rsp.body:
                        chk.violation("body304", "body with 304", wit)
                        return
                else:
                    if must304:
                        chk.violation("no304:%s" % br, "200 although the validator matches: %r" % wit, wit)
                        return
                    body = rsp.body
                    enc = rsp.get(b"content-encoding")
                    if method == "GET":
                        if enc == b"gzip":
                            body = zlib.decompress(body, 31)
                        elif enc == b"deflate":
                            body = zlib.decompress(body, -15)
                        if body != data or not rsp.complete:
                            chk.violation("body", "200 with %d bytes that are not the current content (%r)" % (len(body), wit), wit)
                            return
                    if etag:
                        cur[vkey] = etag
                chk.ok(decision="%d inm=%s ims=%s" % (rsp.status, m_inm, m_ims), branch=br, method=method, how=how, server=srv.name)
            seen += [(t, lm) for t in cur.values()]
        c.close()

    check.parallel(10, history, range(chk.n(900)))

    # several If-None-Match headers; POST is never answered 304
    def extra(i):
        r = chk.rng("x", i)
        fn = "x%d" % i
        with open(os.path.join(root, fn), "w") as f:
            f.write("x" * (i % 50 + 1))
        srv = srvs[i % 2]
        e = http.get(srv.port, "/def/" + fn).get(b"etag")
        rsp = http.get(srv.port, "/def/" + fn, headers=[("If-None-Match", b'"a"'), ("If-None-Match", e if i % 3 else b'"q"')])
        if (rsp.status == 304) != bool(i % 3):
            chk.violation("multi-inm", "status %d with two If-None-Match headers, the second %smatching" % (rsp.status, "" if i % 3 else "not "), {})
        else:
            chk.ok(decision="two headers %d" % rsp.status)
        if i % 2:
            pe = http.get(srv.port, "/post/x", headers=[("Accept-Encoding", "gzip")])
            for m in ("POST", "GET", "PUT", "HEAD"):
                rsp = http.get(srv.port, "/post/x", m, body=b"a" if m in ("POST", "PUT") else None, headers=[("Accept-Encoding", "gzip"), ("If-None-Match", pe.get(b"etag") or b"?")])
                if (rsp.status == 304) != (m in ("GET", "HEAD")):
                    chk.violation("304:%s" % m, "%s with the matching entity tag answered %d" % (m, rsp.status), {"head": rsp.raw_head})
                else:
                    chk.ok(decision="%s -> %d" % (m, rsp.status))
    check.parallel(4, extra, range(chk.n(30)))
    for s in srvs:
        s.verify("end")
        s.stop()


if __name__ == "__main__":
    c = check.Check("P08", rule="one evaluation = one conditional response compared with the reference decision for the file's current size, time and content, the entity tag also against all tags seen before for that URL; "
                    "distinct = decisions x validators, etag.use settings, ways of replacing the file")
    check.run(c, run, min_evals=3000)
