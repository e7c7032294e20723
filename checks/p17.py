"""P17: conditions and blocks of generated configurations against a reference interpreter."""
import os
import re

from vf import build, check, http, server

SEGS = ["a", "b", "ab", "aab", "x.txt", "x.html", "A", "a-b", "dir", "dir2", "long-segment-name", "0", "10"]
HOSTS = ["a.example", "b.example", "www.a.example", "example", "xn--a.example", "10.0.0.1"]
METHODS = ["GET", "GET", "HEAD", "POST", "PUT", "DELETE", "PROPFIND"]
HVALS = ["", "v1", "v2", "v1x", "xv1", "10", "9", "text/html", "a, b", "V1"]
QS = ["", "q=1", "q=2&r=3", "q=10", "a/b?c", "%41", "q=1.txt"]
REGEX = ["^/(a+)(b*)", "([a-z]+)\\\\.txt$", "(.)(.)$", "^/$", "b", "(x)|(y)", "^(.*)/(.*)$", "[0-9]+", "(?i)^/A", "^$", "(v)([0-9])", "\\\\.example$", "q=([0-9]+)", "(z)?a"]
FILES = {"/x.txt": b"x" * 10, "/a/x.txt": b"", "/dir/x.html": b"y" * 1000, "/b": b"b"}
DIRS = ["/dir", "/a", "/dir2", "/"]
STRVARS = ["req.path", "req.raw_path", "req.query", "req.host", "req.scheme", "req.method", 'req.header["X-A"]', 'req.header["x-b"]',
           'req.env["E1"]', 'req.environment["E2"]', "req.remoteip", "req.localip", "phys.path", "phys.docroot", "phys.pathinfo", "physical.pathinfo", 'request.header["X-Many"]']
NUMVARS = ["req.localport", "req.remoteport", "req.length", "phys.size"]
BOOLVARS = ["req.is_handled", "phys.exists", "phys.is_dir", "phys.is_file"]
TAGS = ["tag-one", "tag-two", "tag three/1.0"]


def q(s):
    return '"%s"' % s.replace("%", "%%") if False else '"%s"' % s


class Gen:
    def __init__(self, r, docroot, port):
        self.r, self.docroot, self.port = r, docroot, port
        self.n = 0
        self.resp = False

    def val(self, var):
        r = self.r
        if var in ("req.path", "req.raw_path", "phys.path"):
            p = "/" + "/".join(r.choice(SEGS) for _ in range(r.randrange(0, 3)))
            if var == "req.raw_path" and r.random() < 0.4:
                p += "?" + r.choice(QS)
            return self.docroot + p if var == "phys.path" else p
        if var.endswith(".pathinfo"):
            return r.choice(["", "", "/", "/" + r.choice(SEGS), "/%s/%s" % (r.choice(SEGS), r.choice(SEGS))])
        if var == "phys.docroot":
            return r.choice([self.docroot, "/nowhere", ""])
        if var == "req.query":
            return r.choice(QS)
        if var == "req.host":
            return r.choice(HOSTS)
        if var == "req.scheme":
            return r.choice(["http", "https"])
        if var == "req.method":
            return r.choice(METHODS + ["get"])
        if var == "req.remoteip" or var == "req.localip":
            return r.choice(["127.0.0.1", "127.0.0.2", "127.0.0.11"])
        if var.startswith("resp."):
            return r.choice(["text/plain", "text/html", "", "r1", "r2"])
        return r.choice(HVALS)

    def atom(self):
        r = self.r
        k = r.random()
        if self.resp and k < 0.5:
            if r.random() < 0.5:
                return ("num", "resp.status", r.choice(["==", "!=", "<", "<=", ">", ">="]), r.choice([200, 201, 403, 404, 500, 0]))
            var = r.choice(['resp.header["Content-Type"]', 'resp.header["X-R0"]', 'response.header["x-nope"]'])
        elif k < 0.12:
            v = r.choice(BOOLVARS)
            return ("bool", v, r.random() < 0.5)
        elif k < 0.25:
            v = r.choice(NUMVARS)
            n = {"req.localport": [self.port, self.port + 1, 0, 80], "req.remoteport": [0, 1024, 40000, 65535],
                 "req.length": [0, 1, 5, 100, 5000], "phys.size": [0, 1, 10, 1000, 999]}[v]
            return ("num", v, r.choice(["==", "!=", "<", "<=", ">", ">="]), r.choice(n))
        else:
            var = r.choice(STRVARS)
        k = r.random()
        if k < 0.3:
            return ("re", var, r.choice(["=~", "=~", "!~"]), r.choice(REGEX))
        if k < 0.36 and var in ("req.remoteip", "req.localip"):
            return ("ip", var, r.choice(["=/", "!/"]), r.choice(["127.0.0.0/8", "127.0.0.1/32", "10.0.0.0/8", "127.0.0.2/31", "::1"]))
        v = self.val(var)
        op = r.choice(["==", "!=", "=^", "!^", "=$", "!$"])
        if op[1] == "^" and v:
            v = v[:r.randrange(len(v) + 1)]
        elif op[1] == "$" and v:
            v = v[r.randrange(len(v) + 1):]
        return ("str", var, op, v)

    def expr(self, d=0):
        r = self.r
        k = r.random()
        if d > 2 or k < 0.6:
            return self.atom()
        if k < 0.8:
            return ("and", [self.expr(d + 1) for _ in range(r.choice([2, 2, 3]))])
        return ("or", [self.expr(d + 1) for _ in range(r.choice([2, 2, 3]))])

    def block(self, d):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 3] if d else [2, 3, 4])):
            k = r.random()
            if d < 4 and k < 0.5:
                chain = [(self.expr(), self.block(d + 1)) for _ in range(r.choice([1, 1, 2, 3]))]
                els = self.block(d + 1) if r.random() < 0.6 else None
                out.append(("if", chain, els))
            elif k < 0.58 and not self.resp:
                out.append(("tag", r.choice(TAGS)))
            elif k < 0.64 and not self.resp:
                out.append(("env", r.choice(["E1", "E2"]), r.choice(HVALS)))
            elif k < 0.68 and not self.resp and d > 1:
                out.append(("respond", r.choice([200, 201, 404]), self.mark()))
            elif k < 0.72 and not self.resp:
                out.append(("etag", r.choice(["[\"inode\", \"mtime\", \"size\"]", "[]"])))
            elif k < 0.8 and not self.resp:
                out.append(("cap", self.mark()))
            else:
                out.append(("mark", self.mark()))
        return out

    def mark(self):
        self.n += 1
        return "m%d" % self.n


def etext(e, top=True):
    k = e[0]
    if k == "bool":
        return ("!" if not e[2] else "") + e[1]
    if k == "num":
        return "%s %s %d" % (e[1], e[2], e[3])
    if k == "and" or k == "or":
        # "and" binds stronger: parenthesise only where needed (or sometimes anyway, by length)
        parts = []
        for x in e[1]:
            t = etext(x, False)
            if x[0] == "or" or (x[0] == "and" and k == "and") or (x[0] in ("and", "or") and len(t) % 2):
                t = "(" + t + ")"
            parts.append(t)
        return (" %s " % k).join(parts)
    return '%s %s "%s"' % (e[1], e[2], e[3])


def btext(b, resp, ind="\t"):
    s = ""
    for x in b:
        if x[0] == "if":
            for i, (e, bb) in enumerate(x[1]):
                s += ("%sif " % ind if i == 0 else " else if ") + etext(e) + " {\n" + btext(bb, resp, ind + "\t") + ind + "}"
            if x[2] is not None:
                s += " else {\n" + btext(x[2], resp, ind + "\t") + ind + "}"
            s += "\n"
        elif x[0] == "tag":
            s += '%sserver.tag "%s";\n' % (ind, x[1])
        elif x[0] == "env":
            s += '%senv.set "%s" => "%s";\n' % (ind, x[1], x[2])
        elif x[0] == "respond":
            s += '%srespond %d => "%s %%{req.env[T]}";\n' % (ind, x[1], x[2])
        elif x[0] == "etag":
            s += "%setag.use %s;\n" % (ind, x[1])
        elif x[0] == "cap":
            s += '%senv.set "T" => "%%{req.env[T]},%s<%%0|%%1|%%2>";\n' % (ind, x[1])
        elif resp:
            s += '%sheader.add "X-R" => "%s";\n' % (ind, x[1])
        else:
            s += '%senv.set "T" => "%%{req.env[T]},%s";\n' % (ind, x[1])
    return s


class Ref:
    def __init__(self, attrs):
        self.a = attrs          # variable -> value or callable
        self.env = {"T": "", "E1": "", "E2": ""}
        self.tag = None
        self.etag = True
        self.handled = None     # (status, text)
        self.marks = []
        self.resp = None

    def var(self, v):
        m = re.match(r'(?:req|request)\.(header|env|environment)\["(.*)"\]', v)
        if m:
            if m.group(1) == "header":
                return self.a["headers"].get(m.group(2).lower(), "")
            return self.env.get(m.group(2), "")
        m = re.match(r'(?:resp|response)\.header\["(.*)"\]', v)
        if m:
            return self.resp[1].get(m.group(1).lower(), "")
        if v == "resp.status":
            return self.resp[0]
        if v == "req.is_handled":
            return self.handled is not None
        return self.a[v]

    def cond(self, e):
        """-> (result, regex match or None)"""
        k = e[0]
        if k == "bool":
            return bool(self.var(e[1])) == e[2], None
        if k == "num":
            x, y = self.var(e[1]), e[3]
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[e[2]], None
        if k == "and":
            return all(self.cond(x)[0] for x in e[1]), None
        if k == "or":
            return any(self.cond(x)[0] for x in e[1]), None
        v = self.var(e[1])
        if k == "re":
            m = re.search(e[3].replace("\\\\", "\\"), v)
            return (m is not None) == (e[2] == "=~"), m
        if k == "ip":
            inn = {"127.0.0.0/8": v.startswith("127."), "127.0.0.1/32": v == "127.0.0.1", "10.0.0.0/8": False, "127.0.0.2/31": v in ("127.0.0.2", "127.0.0.3"), "::1": False}[e[3]]
            return inn == (e[2] == "=/"), None
        res = v == e[3] if e[2][1] == "=" else v.startswith(e[3]) if e[2][1] == "^" else v.endswith(e[3])
        if e[2] == "==":
            res = v == e[3]
        return res == (e[2][0] != "!"), None

    def run(self, b, cap):
        """cap: captures visible (a match), None (none), or False (not specified)"""
        for x in b:
            if x[0] == "if":
                for e, bb in x[1]:
                    ok, m = self.cond(e)
                    if ok:
                        self.run(bb, (m if m is not None and e[2] == "=~" else cap if not has_re(e) else False) if not chain_re(x, e) else False)
                        break
                else:
                    if x[2] is not None:
                        self.run(x[2], cap if not any(has_re(e) for e, _ in x[1]) else False)
            elif x[0] == "tag":
                self.tag = x[1]
            elif x[0] == "env":
                self.env[x[1]] = x[2]
            elif x[0] == "etag":
                self.etag = x[1] != "[]"
            elif x[0] == "respond":
                if self.handled is None:
                    self.handled = (x[1], "%s %s" % (x[2], self.env["T"]))
            elif x[0] == "cap":
                if cap is False:
                    self.env["T"] += ",%s<\x00>" % x[1]       # anything
                else:
                    g = [cap.group(0)] + [y or "" for y in cap.groups()] if cap is not None else []
                    g = (g + ["", "", ""])[:3]
                    self.env["T"] += ",%s<%s|%s|%s>" % ((x[1],) + tuple(g))
            elif self.resp is not None:
                self.marks.append(x[1])
            else:
                self.env["T"] += "," + x[1]


def has_re(e):
    return e[0] == "re" or (e[0] in ("and", "or") and any(has_re(x) for x in e[1]))


def chain_re(x, e):
    """an earlier member of the same else-if chain (evaluated, failed) had a regular expression"""
    for e2, _ in x[1]:
        if e2 is e:
            return False
        if has_re(e2):
            return True
    return False


def same(got, want):
    return re.fullmatch(re.escape(want).replace("\x00", "[^>]*").replace("\\\x00", "[^>]*"), got, re.S) is not None


def run(chk):
    build.build("asan")
    docroot = os.path.join(chk.scratch, "docroot")
    for d in DIRS:
        os.makedirs(docroot + d, exist_ok=True)
    for f, b in FILES.items():
        with open(docroot + f, "wb") as fh:
            fh.write(b)
    for rnd in range(chk.n(4)):
        cases = []
        lport = server.free_port()
        conf = "keepalive.requests 1000000; keepalive.timeout 120; static.exclude_extensions [];\n"
        ncase = 40
        for i in range(ncase):
            r = chk.rng("case", rnd, i)
            g = Gen(r, docroot, lport)
            dr = r.random() < 0.7
            body = g.block(0)
            g.resp = True
            after = g.block(1)
            pi = dr and r.random() < 0.5
            cases.append((dr, pi, body, after))
            conf += 'if req.header["X-Case"] == "%d" {\n\tenv.set "T" => "";\n%s%s' % (i, '\tdocroot "%s";%s\n' % (docroot, " pathinfo;" if pi else "") if dr else "", btext(body, False))
            conf += '\tif req.header["X-Fin"] == "static" { static; }\n\trespond 200 => "fin %{req.env[T]}";\n\theader.add "X-R0" => "r1";\n'
            conf += '\theader.add "X-T" => "%{req.env[T]}";\n' + btext(after, True) + "}\n"
        srv = server.Server(chk, conf, setup='listen "127.0.0.2:%d";\n' % lport, workers=2).start()

        def one(j):
            r = chk.rng("req", rnd, j)
            host = r.choice(["127.0.0.1", "127.0.0.2"])
            port = srv.port if host == "127.0.0.1" else lport
            src = r.choice(["127.0.0.1", "127.0.0.2", "127.0.0.11"])
            c = http.Conn(host=host, port=port, src=src)
            try:
                for _ in range(12):
                    ci = r.randrange(ncase)
                    dr, pi, body, after = cases[ci]
                    path = "/" + "/".join(r.choice(SEGS) for _ in range(r.choice([0, 1, 1, 2, 2, 3])))
                    if r.random() < 0.35:
                        path = r.choice(list(FILES) + DIRS)
                    elif pi and r.random() < 0.4:
                        path = r.choice(list(FILES)) + "/" + "/".join(r.choice(SEGS) for _ in range(r.choice([0, 1, 1, 2])))
                    qs = r.choice(QS)
                    raw = path + ("?" + qs if qs or r.random() < 0.1 else "")
                    h = r.choice(HOSTS)
                    m = r.choice(METHODS)
                    hd = [("X-Case", str(ci))]
                    H = {"x-case": str(ci)}
                    for n in ("X-A", "X-B"):
                        if r.random() < 0.7:
                            v = r.choice(HVALS)
                            hd.append((n, v))
                            H[n.lower()] = v
                    many = [r.choice(["v1", "v2", "10"]) for _ in range(r.randrange(3))]
                    hd += [("X-Many", v) for v in many]
                    info = ""
                    if pi:
                        # what follows a file in the path is path info, and no longer part of the path
                        for f in FILES:
                            if path.startswith(f + "/"):
                                path, info = f, path[len(f):]
                                break
                    isfile = dr and path in FILES
                    fin = isfile and not info and m in ("GET", "HEAD") and r.random() < 0.6
                    if fin:
                        hd.append(("X-Fin", "static"))
                        H["x-fin"] = "static"
                    r.shuffle(hd)
                    H["x-many"] = ", ".join(v for k, v in hd if k == "X-Many")
                    data = None
                    if m in ("POST", "PUT", "PROPFIND"):
                        data = b"z" * r.choice([0, 1, 5, 100, 101, 5000])
                    # (what req.length is without a body is not specified: cases using it get one)
                    full = docroot + path if dr else ""
                    # with docroot the physical path is docroot + path
                    isdir = dr and path.rstrip("/") in [d.rstrip("/") for d in DIRS]
                    attrs = {"headers": H, "req.path": path, "req.raw_path": raw, "req.query": qs, "req.host": h, "req.scheme": "http", "req.method": m,
                             "req.remoteip": src, "req.localip": host, "req.localport": port, "req.remoteport": c.s.getsockname()[1],
                             "req.length": len(data) if data is not None else 0,
                             "phys.path": full, "phys.docroot": docroot if dr else "", "phys.pathinfo": info, "physical.pathinfo": info,
                             "phys.exists": isfile or isdir, "phys.is_dir": isdir, "phys.is_file": isfile,
                             "phys.size": len(FILES[path]) if isfile else os.stat(full).st_size if isdir else -1}
                    ref = Ref(attrs)
                    ref.run(body, None)
                    if fin and ref.handled is None:
                        st, txt, ct = 200, None, None
                    elif ref.handled is not None:
                        (st, txt), ct = ref.handled, "text/plain"
                    else:
                        st, txt, ct = 200, "fin " + ref.env["T"], "text/plain"
                    c.send(http.build_request(m, raw, hd, data, host=h))
                    rsp = c.read_response(m)
                    # response conditions see what was sent (the headers added later are ours)
                    ct0 = (rsp.get(b"content-type") or b"").decode("latin-1")
                    ref.resp = (st, {"content-type": ct0, "x-r0": "r1"})
                    ref.run(after, None)
                    ctx = {"request": http.build_request(m, raw, hd, data, host=h).decode("latin-1"), "case": btext(body, False) + "--\n" + btext(after, True), "src": src}

                    def bad(key, what):
                        chk.violation(key, "case %d, %s %s: %s" % (ci, m, raw, what), ctx)
                    if rsp.status != st:
                        bad("status", "status %d, expected %d" % (rsp.status, st))
                    if ct and ct0 != ct:
                        bad("ct", "content type %r" % ct0)
                    xt = (rsp.get(b"x-t") or b"").decode("latin-1")
                    if not same(xt, ref.env["T"].strip()):
                        bad("trace", "blocks run: %r, expected %r" % (xt, ref.env["T"]))
                    if txt is not None and m != "HEAD" and not same(rsp.body.decode("latin-1"), txt):
                        bad("body", "body %r, expected %r" % (rsp.body, txt))
                    if txt is None and m == "GET" and rsp.body != FILES[path]:
                        bad("file", "file body differs")
                    xr = [v.decode() for k, v in rsp.headers if k.lower() == b"x-r"]
                    if ",".join(xr) != ",".join(ref.marks) and ", ".join(xr) != ", ".join(ref.marks):
                        bad("response", "response blocks run: %r, expected %r" % (xr, ref.marks))
                    sv = (rsp.get(b"server") or b"").decode()
                    if (ref.tag is not None and sv != ref.tag) or (ref.tag is None and sv in TAGS):
                        bad("setting", "server tag %r, set was %r" % (sv, ref.tag))
                    if txt is None and (rsp.get(b"etag") is not None) != ref.etag:
                        bad("setting", "etag %r, etag.use %r" % (rsp.get(b"etag"), ref.etag))
                    chk.ok(blocks=min(ref.env["T"].count(","), 8), resp=min(len(ref.marks), 4), handled=ref.handled is not None, tag=ref.tag is not None, fin=fin)
            except (http.Closed, http.ProtoError, http.Timeout) as e:
                chk.inconcl("%s: %s" % (type(e).__name__, e))
                srv.verify("requests")
            finally:
                c.close()
        check.parallel(8, one, range(chk.n(150)))
        srv.verify("end")
        srv.stop()


if __name__ == "__main__":
    c = check.Check("P17", rule="one evaluation = one request to a generated configuration whose executed blocks, captures, settings, status and response blocks were compared with a reference interpreter; distinct = (blocks run, response blocks, handled, setting, static) classes")
    check.run(c, run, min_evals=3000)
