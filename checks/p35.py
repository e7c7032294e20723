"""P35: generated rewrite/redirect/respond/header/env/map/docroot rules against a reference evaluation of patterns."""
import os
import re

from vf import backends, build, check, http, server, urlref

SEGS = [b"a", b"b", b"ab", b"art", b"42", b"7", b"x.txt", b"user", b"A-B", b"d%20e", b"%C3%A4", b"p%25q", b"k%3Fz", b"h%23i", b"a%2Fb", b"..", b".", b"", b"c+d", b"m&n=1", b"s;t", b"%7E~",
        b"q%22r", b"u%5Cv", b"w$1", b"%1", b"%24%5B1-%5D", b"(x)", b"file.php", b"long-segment-with-some-text"]
QS = [b"", b"", b"id=1", b"a=1&b=2", b"x?y", b"p=%41%20b", b"u=/a/b", b"$1%25", b"..", b"k=v;w", b"%3f"]
HV = [b"", b"v1", b"text v2", b"v1-9", b"a/b", b"1,2", b"$1 %1", b"\\x", b"0123456789"]
HOSTS = [b"www.example.com", b"example.com", b"a.b.c.d.example.org", b"localhost", b"x-1.test", b"10.0.0.1"]
METH = ["GET", "GET", "GET", "POST", "PUT", "DELETE"]
# (regular expression, number of groups); the syntax is common to pcre and python
RE_PATH = [(r"^/([^/]*)(/.*)?$", 2), (r"^/(a|b|art)/(\d+)(/|$)", 3), (r"^(.*)/([^/]*)$", 2), (r"(x)|(y)|(a)", 3), (r"/", 0), (r"^/user/(.+)$", 1), (r"\.(php|txt)$", 1), (r"^/(?:a|b)(.)?", 1),
           (r"(\d)(\d)?(\d)?", 3), (r"([a-z]+)([^a-z]*)([a-z]*)", 3), (r"^$", 0), (r"(?i)^/A", 0), (r"^(/)(.)(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?(.)?", 12), (r"(z+)?/", 1), (r"(%|\$)(.*)", 2), (r"^.*$", 0),
           (r"(?P<n>[0-9]+)", 1), (r"/((a)|(b)|(c))+", 4), (r"(.)(?=.$)", 1), (r"\\(.)", 1)]
RE_ANY = [(r"^(.*)$", 1), (r"(\d+)", 1), (r"([a-z]*)(=|\.|-)(.*)", 3), (r"^$", 0), (r"(v)(\d)?", 2), (r"(.)(.)?(.)?", 3), (r"GET|PU(T)", 1)]
SAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!()*-./_")


def enc(b):
    return b"".join(bytes([c]) if c in SAFE else b"%%%02x" % c for c in b)


def cs(s):
    """config string"""
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")


class Pat:
    """parts: ("s", text) ("n", a, b) ("p", a, b) ("v", var, encoded)"""
    def __init__(self, parts):
        self.parts = parts

    def text(self):
        o = ""
        for p in self.parts:
            if p[0] == "s":
                o += re.sub(r"([\\$%])", r"\\\1", p[1])
            elif p[0] == "q":
                o += "?"
            elif p[0] == "eq":
                o += "\\?"
            elif p[0] in "np":
                o += "$" if p[0] == "n" else "%"
                _, a, b, style = p
                if style == 0:
                    o += "%d" % a
                elif style == 1:
                    o += "[%d]" % a
                else:
                    o += "[%s-%s]" % ("" if a is None else a, "" if b is None else b)
            else:
                o += "%%{%s%s}" % ("enc:" if p[2] else "", p[1])
        return o

    @staticmethod
    def caps(groups, a, b):
        if not groups:
            return b""
        top = len(groups) - 1
        big = 1 << 40
        a = big if a is None else a
        b = big if b is None else b
        if a <= b:
            return b"".join(groups[a:min(b, top) + 1])
        return b"".join(reversed(groups[b:min(a, top) + 1]))

    def val(self, st, nth, labels=None):
        o = b""
        for p in self.parts:
            if p[0] == "s":
                o += p[1].encode("latin-1")
            elif p[0] in ("q", "eq"):
                o += b"?"
            elif p[0] == "n" and labels is not None:
                o += host_labels(labels, p[1], p[2])
            elif p[0] in "np":
                o += self.caps(nth if p[0] == "n" else st.caps(), p[1], p[2])
            else:
                v = st.var(p[1])
                o += enc(v) if p[2] else v
        return o

    def split(self):
        for i, p in enumerate(self.parts):
            if p[0] == "q":
                return Pat(self.parts[:i]), Pat(self.parts[i + 1:])
        return self, None


def host_labels(host, a, b):
    if not host:
        return b""
    big = 1 << 40
    a = big if a is None else a
    b = big if b is None else b
    if a == 0 or b == 0:
        return host
    l = host.split(b".")
    n = len(l)
    x, y = min(a, n), min(b, n)
    if x <= y:
        return b".".join(l[n - i] for i in range(y, x - 1, -1))
    return b".".join(l[n - i] for i in range(y, x + 1))


class St:
    """what the server knows about a request"""
    def __init__(self):
        self.stack = []
        self.env = {}
        self.hd = []
        self.resp = []
        self.phys = b""
        self.dr = b""
        self.done = None

    def caps(self):
        return self.stack[-1] if self.stack else []

    def var(self, v):
        m = re.match(r'^(?:req|request)\.(?:env|environment)\[(.*)\]$', v)
        if m:
            return self.env.get(m.group(1), b"")
        m = re.match(r'^(?:req|request)\.header\[(.*)\]$', v)
        if m:
            v = [x for k, x in self.hd if k.lower() == m.group(1).lower().encode()]
            if len(v) > 1 and b"" in v:
                raise Bad()   # (how empty lines are joined is not specified)
            return b", ".join(v)
        k = v.split(".", 1)[1]
        if v.startswith("phys"):
            if k == "path":
                return self.phys
            if k == "docroot":
                return self.dr
            ex = os.path.exists(self.phys) if self.phys else False
            if k == "size":
                return b"%d" % os.stat(self.phys).st_size if ex else b"-1"
            r = {"exists": ex, "is_dir": ex and os.path.isdir(self.phys), "is_file": ex and os.path.isfile(self.phys)}[k]
            return b"TRUE" if r else b"FALSE"
        if k == "is_handled":
            return b"FALSE" if self.done is None else b"TRUE"
        return {"path": self.path, "raw_path": self.raw, "query": self.query, "host": self.host, "scheme": b"http", "method": self.method, "remoteip": self.src,
                "length": self.length}[k]


class Gen:
    def __init__(self, r, roots):
        self.r, self.roots = r, roots

    def rng(self, n):
        r = self.r
        style = r.choice([0, 0, 0, 0, 0, 1, 2, 2])
        if style < 2:
            a = r.randrange(0, min(n + 2, 10)) if style == 0 else r.choice([0, 1, n, n + 1, 11, 100, 4294967294])
            return a, a, style
        a, b = [r.choice([None, 0, 1, 2, 3, n, n + 1, 30, 70000, 4294967295]) for _ in "ab"]
        if a is None and b is None:
            a = 1
        return a, b, style

    def pat(self, nth, prev, n=None, first=None, safe=False, headers=True, q=False, phys=False):
        """nth: number of $ captures (None: no captures), prev: same for %"""
        r = self.r
        parts = [("s", first)] if first else []
        for _ in range(n or r.randrange(1, 6)):
            k = r.random()
            if k < 0.3:
                t = r.choice(["x", "/", "-", "foo/", "a=", "&b=", "/../", "/./", ".txt", "42"] + ([] if safe else ["$", "%", "\\", "$1", "%{req.path}", "a b", "%41", "'q'", "<>", "\\$", "%1%%"]))
                parts.append(("s", t))
            elif k < 0.55:
                parts.append(("n",) + self.rng(nth or 0))
            elif k < 0.7 and prev is not None:
                parts.append(("p",) + self.rng(prev))
            elif k < 0.76 and q:
                parts.append(("q",))
            elif k < 0.8 and not safe:
                parts.append(("eq",))
            else:
                v = r.choice(["req.path", "req.query", "req.host", "req.raw_path", "req.method", "req.scheme", "req.remoteip", "request.path", "request.query", "req.env[E1]", "req.environment[E2]",
                              "req.header[X-A]", "req.header[x-many]", "request.header[X-Set]", "req.is_handled", "req.header[X-None]", "req.env[none]"]
                             + (["phys.path", "phys.docroot", "phys.exists", "phys.is_dir", "phys.is_file", "phys.size"] if phys else []))
                parts.append(("v", v, True if safe and v not in ("req.query", "req.method", "req.host", "req.raw_path") else r.random() < 0.35))
        # (adjacent texts would be read as one)
        return Pat(parts)

    def cond(self):
        r = self.r
        v = r.choice(["req.path", "req.path", "req.query", "req.host", "req.method", 'req.header["X-A"]', "req.raw_path"])
        x = r.choice(RE_PATH if "path" in v else RE_ANY)
        return v, x

    def rules(self, prev, fn):
        r = self.r
        if r.random() < 0.15:
            return [(None, fn(None))]
        out = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            x = r.choice(RE_PATH)
            out.append((x, fn(x[1])))
        return out

    def block(self, depth, prev):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < 0.3:
                out.append(("rewrite", self.rules(prev, lambda n: self.pat(n, prev, first="/", q=True))))
            elif k < 0.4:
                out.append(("rewrite_raw", self.rules(prev, lambda n: self.pat(n, None, first="/", safe=True, q=True))))
            elif k < 0.55 and depth < 3:
                v, x = self.cond()
                a = self.block(depth + 1, x[1])
                b = self.block(depth + 1, None) if r.random() < 0.4 else None
                out.append(("if", v, x, a, b))
            elif k < 0.62:
                out.append(("redirect", self.rules(prev, lambda n: self.pat(n, prev, first=r.choice(["http://x/", "/", "?", "./", "https://y.example/p?"])))))
            elif k < 0.7:
                out.append((r.choice(["env.set", "env.add"]), r.choice(["E1", "E2"]), self.pat(None, prev)))
            elif k < 0.73:
                out.append(("env.remove", r.choice(["E1", "E2"])))
            elif k < 0.8:
                out.append((r.choice(["req_header.add", "req_header.append", "req_header.overwrite"]), r.choice(["X-Set", "x-a"]), self.pat(None, prev, n=2)))
            elif k < 0.84:
                out.append(("req_header.remove", r.choice(["X-Set", "X-A", "x-many"])))
            elif k < 0.92:
                out.append((r.choice(["header.add", "header.append", "header.overwrite"]), r.choice(["X-R1", "x-r2"]), self.pat(None, prev, n=2)))
            elif k < 0.94:
                out.append(("header.remove", r.choice(["X-R1", "X-R2"])))
            elif k < 0.97:
                pats = [Pat([("s", self.roots + "/")] + self.pat(None, prev, n=1).parts) for _ in range(r.choice([1, 2]))] + [self.docpat()]
                r.shuffle(pats)
                out.append(("docroot", pats))
            else:
                out.append(("alias", r.choice(["/a", "/user/", "/art/42", "/"]), self.docpat()))
            if r.random() < 0.15:
                out.append(("map", self.pat(None, prev, n=1), [b"GET", b"/", b"", b"a", b"v1", b"x", b"foo/", b"example.com"]))
        return out

    def docpat(self):
        r = self.r
        parts = [("s", self.roots + r.choice(["/", "/h-"]))]
        for _ in range(r.randrange(1, 3)):
            k = r.random()
            if k < 0.6:
                lo = r.choice([(0, 0, 0), (1, 1, 0), (1, None, 2), (1, 2, 2), (2, 1, 2), (None, 1, 2), (1, 1, 1), (0, 3, 2), (3, 0, 2), (1, 5, 2), (7, 1, 2)])
                parts.append(("n",) + lo)
            else:
                parts.append(("s", r.choice(["-", "sub/", "x"])))
        return Pat(parts)


def text(b, ind="\t"):
    o = ""
    for a in b:
        if a[0] in ("rewrite", "rewrite_raw", "redirect"):
            rs = a[1]
            if rs[0][0] is None:
                v = cs(rs[0][1].text())
            else:
                v = ["%s => %s" % (cs(x[0]), cs(p.text())) for x, p in rs]
                v = v[0] if len(v) == 1 else "(%s)" % ", ".join(v)
            o += "%s%s %s;\n" % (ind, a[0], v)
        elif a[0] == "if":
            o += "%sif %s =~ %s {\n%s%s}" % (ind, a[1], cs(a[2][0]), text(a[3], ind + "\t"), ind)
            if a[4] is not None:
                o += " else {\n%s%s}" % (text(a[4], ind + "\t"), ind)
            o += "\n"
        elif a[0].endswith(".remove"):
            o += "%s%s %s;\n" % (ind, a[0], cs(a[1]))
        elif a[0] == "docroot":
            o += "%sdocroot (%s);\n" % (ind, ", ".join(cs(p.text()) for p in a[1]))
        elif a[0] == "alias":
            o += "%salias %s => %s;\n" % (ind, cs(a[1]), cs(a[2].text()))
        elif a[0] == "map":
            o += "%smap %s => (%s, default => { env.set \"E2\" => \"no\"; });\n" % (ind, cs(a[1].text()), ", ".join('%s => { env.set "E2" => "k%d"; }' % (cs(k.decode()), i) for i, k in enumerate(a[2])))
        else:
            o += "%s%s %s => %s;\n" % (ind, a[0], cs(a[1]), cs(a[2].text()))
    return o


class Bad(Exception):
    pass


def groups(m):
    return [m.group(0)] + [g or b"" for g in m.groups()]


def hop(lst, op, k, v):
    k, v = k.encode(), v
    idx = [i for i, (n, _) in enumerate(lst) if n.lower() == k.lower()]
    if op == "add" or not idx:
        lst.append((k, v))
    elif op == "append":
        lst[idx[-1]] = (lst[idx[-1]][0], lst[idx[-1]][1] + b", " + v)
    elif len(idx) > 1:
        raise Bad()   # (which of several lines is overwritten is not specified)
    else:
        lst[idx[-1]] = (lst[idx[-1]][0], v)


def run_block(st, b, cov):
    for a in b:
        if a[0] in ("rewrite", "rewrite_raw"):
            subj = st.path if a[0] == "rewrite" else st.raw
            for i, (x, p) in enumerate(a[1]):
                g = []
                if x is not None:
                    m = re.search(x[0].encode(), subj)
                    if m is None:
                        continue
                    g = groups(m)
                cov.add("%s%d" % (a[0], i))
                if a[0] == "rewrite":
                    pp, qp = p.split()
                    np, nq = pp.val(st, g), st.query if qp is None else qp.val(st, g)
                    st.path, st.query = urlref.simplify(np), nq
                    st.raw = enc(st.path) + (b"?" + nq if nq else b"")
                else:
                    v = p.val(st, g)
                    t = urlref.split(v)
                    if t is None or b"#" in v or re.search(rb"%(?![0-9a-fA-F]{2})", v.split(b"?")[0]):
                        raise Bad()
                    _, st.path, st.query, st.raw = t
                break
        elif a[0] == "redirect":
            if st.done is not None:
                continue
            for i, (x, p) in enumerate(a[1]):
                g = []
                if x is not None:
                    m = re.search(x[0].encode(), st.path)
                    if m is None:
                        continue
                    g = groups(m)
                v = p.val(st, g)
                base = b"http://" + st.auth
                f = p.parts[0][1]
                if f == "./":
                    v = base + enc(st.path[:st.path.rfind(b"/") + 1]) + v[2:]
                elif f == "?":
                    v = base + enc(st.path) + v
                elif f == "/":
                    v = base + v
                st.done = (301, v)
                cov.add("redirect" + f)
                break
        elif a[0] == "if":
            v = a[1].replace('"', "")
            m = re.search(a[2][0].encode(), st.var(v))
            if m:
                st.stack.append(groups(m))
                run_block(st, a[3], cov)
                st.stack.pop()
                cov.add("if")
            elif a[4] is not None:
                run_block(st, a[4], cov)
                cov.add("else")
        elif a[0] == "env.set":
            st.env[a[1]] = a[2].val(st, [])
        elif a[0] == "env.add":
            st.env.setdefault(a[1], a[2].val(st, []))
        elif a[0] == "env.remove":
            st.env.pop(a[1], None)
        elif a[0].endswith("header.remove"):
            l = st.hd if a[0].startswith("req") else st.resp
            l[:] = [x for x in l if x[0].lower() != a[1].lower().encode()]
        elif a[0].startswith("req_header."):
            hop(st.hd, a[0].split(".")[1], a[1], a[2].val(st, []))
        elif a[0].startswith("header."):
            hop(st.resp, a[0].split(".")[1], a[1], a[2].val(st, []))
        elif a[0] == "map":
            k = a[1].val(st, [])
            st.env["E2"] = b"k%d" % a[2].index(k) if k in a[2] else b"no"
            cov.add("map" if k in a[2] else "mapdef")
        elif a[0] == "docroot":
            for i, p in enumerate(a[1]):
                v = p.val(st, [], labels=st.host)
                if i == len(a[1]) - 1 or os.path.isdir(v):
                    break
            cov.add("docroot%d" % i)
            st.dr = v
            st.phys = v + st.path
        elif a[0] == "alias":
            pre = a[1].rstrip("/").encode()
            if st.path == pre or st.path.startswith(pre + b"/"):
                st.dr = a[2].val(st, [], labels=st.host)
                st.phys = st.dr + st.path[len(pre):]
                cov.add("alias")


DUMP = ["req.path", "req.raw_path", "req.query", "req.env[E1]", "req.env[E2]", "req.header[X-A]", "req.header[X-Set]", "req.header[x-many]", "phys.path", "phys.docroot"]


def sane(st):
    # (control bytes of the path are replaced, header values are trimmed)
    return all(c >= 32 and c != 127 for v in [st.path, st.query, st.raw] + list(st.env.values()) for c in v)


def gen_part(chk):
    roots = os.path.join(chk.scratch, "roots")
    for h in HOSTS:
        os.makedirs(roots + "/" + h.decode() + "/a", exist_ok=True)
        with open(roots + "/" + h.decode() + "/x.txt", "w") as f:
            f.write("x" * len(h))
    for d in ("h-com", "h-example.com", "foo", "x", "a", "42", "com"):
        os.makedirs(roots + "/" + d, exist_ok=True)
    for rnd in range(chk.n(14)):
        ncase = 70
        conf = "keepalive.requests 1000000; keepalive.timeout 120;\n"
        cases = []
        for i in range(ncase):
            r = chk.rng("case", rnd, i)
            g = Gen(r, roots)
            body = g.block(0, None)
            obs = g.pat(None, None, phys=True)
            after = []
            for _ in range(r.randrange(3)):
                after.append((r.choice(["header.add", "header.append", "header.overwrite"]), r.choice(["X-R1", "X-R3"]), g.pat(None, None, n=2)))
            cases.append((body, obs, after))
            conf += 'if req.header["X-Case"] == "%d" {\n%s\trespond 200 => "%s|%s";\n%s}\n' % (
                i, text(body), "|".join("%%{%s}" % d for d in DUMP), cs(obs.text())[1:-1], text(after))
        srv = server.Server(chk, conf, modules=["mod_rewrite", "mod_redirect"], workers=2, name="gen%d" % rnd).start()

        def one(j):
            r = chk.rng("req", rnd, j)
            src = r.choice(["127.0.0.1", "127.0.0.2"])
            c = http.Conn(port=srv.port, src=src)
            try:
                n = 0
                while n < 12:
                    ci = r.randrange(ncase)
                    body, obs, after = cases[ci]
                    path = b"/" + b"/".join(r.choice(SEGS) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])))
                    qs = r.choice(QS)
                    target = path + (b"?" + qs if qs else b"")
                    host = r.choice(HOSTS)
                    m = r.choice(METH)
                    st = St()
                    t = urlref.split(target)
                    if t is None:
                        continue
                    _, st.path, st.query, st.raw = t
                    st.host, st.method, st.src, st.auth = host, m.encode(), src.encode(), host
                    data = b"z" * r.choice([0, 3, 70]) if m in ("POST", "PUT") else None
                    st.length = b"%d" % len(data) if data is not None else b"0"
                    st.hd = []
                    for k in (b"X-A", b"X-Many", b"X-Many"):
                        if r.random() < 0.6:
                            st.hd.append((k, r.choice(HV)))
                    hd = [("X-Case", str(ci))] + [(k.decode(), v.decode()) for k, v in st.hd]
                    cov = set()
                    try:
                        run_block(st, body, cov)
                        if st.done is None:
                            dump = b"|".join(st.var(d) for d in DUMP)
                            st.done = (200, None)
                            # (the pattern of respond is evaluated when the request is handled)
                            o = obs.val(st, [])
                            txt = dump + b"|" + o
                        else:
                            txt = None
                        for a in after:
                            hop(st.resp, a[0].split(".")[1], a[1], a[2].val(st, []))
                    except Bad:
                        chk.count("skipped", "unspecified")
                        continue
                    if not sane(st) or len(st.raw) > 3000:
                        chk.count("skipped", "control")
                        continue
                    n += 1
                    raw = http.build_request(m, target.decode("latin-1"), hd, data, host=host.decode())
                    c.send(raw)
                    rsp = c.read_response(m)
                    ctx = {"request": raw.decode("latin-1"), "config": text(body) + "respond: " + obs.text() + "\n" + text(after), "src": src}

                    def bad(key, what):
                        chk.violation(key, "%s %s: %s" % (m, target.decode("latin-1"), what), ctx)
                    if rsp.status != st.done[0]:
                        bad("status", "status %d, expected %d" % (rsp.status, st.done[0]))
                    elif st.done[0] == 301:
                        loc = rsp.get(b"location")
                        if loc is None or loc.strip() != st.done[1].strip():
                            bad("location", "Location %r, expected %r" % (loc, st.done[1]))
                    elif rsp.body != txt:
                        bad("body", "got %r, expected %r" % (rsp.body, txt))
                    for k in (b"x-r1", b"x-r2", b"x-r3"):
                        got = sorted(v.strip() for n_, v in rsp.headers if n_.lower() == k)
                        want = sorted(v.strip() for n_, v in st.resp if n_.lower() == k)
                        if got != want:
                            bad("header", "%s: %r, expected %r" % (k.decode(), got, want))
                    chk.ok(cov=",".join(sorted(cov))[:60])
            except (http.Closed, http.ProtoError, http.Timeout) as e:
                chk.inconcl("%s: %s" % (type(e).__name__, e))
                srv.verify("requests", expect_alive=True)
            finally:
                c.close()
        check.parallel(8, one, range(chk.n(160)))
        srv.verify("end")
        srv.stop()


def same_part(chk):
    """a rewritten request and one sent with the rewritten target get the same response"""
    root = os.path.join(chk.scratch, "same")
    for d in ("/", "/dir", "/dir/sub dir", "/al", "/idx"):
        os.makedirs(root + d, exist_ok=True)
    files = ["/x.txt", "/dir/y.html", "/dir/sub dir/z ä.txt", "/al/a?b", "/idx/index.html", "/p%q", "/k;v=1", "/script.cgi"]
    for f in files:
        with open(root + f, "wb") as fh:
            fh.write(f.encode() * 20)

    def app(rq):
        b = b"%s %s %s\n" % (rq.method.encode() if isinstance(rq.method, str) else rq.method, rq.target if isinstance(rq.target, bytes) else rq.target.encode(), rq.body or b"")
        return [("raw", b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nX-B: 1\r\n\r\n%s" % (len(b), b)), ("end",)]
    be = backends.HttpStub(app)
    chk.cleanup(be.stop)
    targets = [b"/x.txt", b"/dir/y.html", b"/dir", b"/dir/", b"/dir/sub%20dir/z%20%c3%a4.txt", b"/al/a%3fb", b"/idx", b"/idx/", b"/p%25q", b"/k%3bv%3d1", b"/none", b"/script.cgi/info", b"/dir/sub%20dir",
               b"/bk/x", b"/bk/a%20b%3f", b"/bk/%2525", b"/sec/x", b"/red/y", b"/al2/a%3fb", b"/", b"/dir/none/", b"/gone/x"]
    conf = """
pipeline = {
    if req.path =^ "/bk/" { proxy "127.0.0.1:%d"; }
    if req.path =^ "/sec" { respond 403 => "no %%{req.path} %%{req.query}"; }
    if req.query == "deny=1" { respond 402; }
    redirect "^/red/(.*)" => "/new/$1?%%{req.query}";
    if req.raw_path =~ "^/gone(.*)" { respond 410 => "%%1"; }
    docroot "%s";
    alias "/al2" => "%s/al";
    pathinfo;
    index ("index.html");
    dirlist;
    static;
    respond 404 => "%%{phys.path} %%{phys.pathinfo}";
};
keepalive.requests 1000000;
""" % (be.port, root, root)
    r = chk.rng("same")
    for i, t in enumerate(targets):
        p = urlref.split(t)[1].decode("latin-1")
        conf += 'if req.header["X-Case"] == "w%d" { rewrite %s; }\n' % (i, cs(re.sub(r"([\\$%?])", r"\\\1", p)))
        conf += 'if req.header["X-Case"] == "q%d" { rewrite "^/(.*)$" => %s; }\n' % (i, cs(re.sub(r"([\\$%?])", r"\\\1", p) + "?n=1&$1&%{req.query}"))
        conf += 'if req.header["X-Case"] == "r%d" { rewrite_raw "^([^?]*)(.*)$" => %s; }\n' % (i, cs(t.decode().replace("%", "\\%") + "$2"))
        conf += 'if req.header["X-Case"] == "d%d" { rewrite "^/zzz" => "/foo"; rewrite ("^/never" => "/x", "^/(.)" => "/tmp/$1", "." => "/y"); rewrite "^/tmp/.$" => %s; }\n' % (i, cs(re.sub(r"([\\$%?])", r"\\\1", p)))
    conf += "pipeline;\n"
    srv = server.Server(chk, conf, modules=["mod_rewrite", "mod_redirect", "mod_proxy", "mod_dirlist"], workers=2, name="same").start()

    def one(j):
        r = chk.rng("sreq", j)
        c = http.Conn(port=srv.port)
        try:
            for _ in range(6):
                i = r.randrange(len(targets))
                t = targets[i]
                kind = r.choice("wqrd")
                q = r.choice([b"", b"a=1", b"x=%20&y", b"deny=1"])
                orig = r.choice([b"/q", b"/s"]) if kind == "d" else r.choice([b"/orig", b"/o/p%20q", b"/%c3%a4"])
                p = urlref.split(t)[1]
                if kind in "wd":
                    direct = enc(p) + (b"?" + q if q else b"")
                elif kind == "q":
                    op = urlref.split(orig)[1][1:]
                    if b" " in op or any(x > 126 for x in op):
                        op, orig = b"plain", b"/plain"
                    direct = enc(p) + b"?n=1&" + op + b"&" + q
                else:
                    direct = t + (b"?" + q if q else b"")
                m = r.choice(["GET", "GET", "HEAD", "POST"])
                data = b"body" if m == "POST" else None
                out = []
                for target, case in ((orig + (b"?" + q if q else b""), "%s%d" % (kind, i)), (direct, "-")):
                    hd = [("X-Case", case)] + ([("Range", "bytes=3-9")] if i % 3 == 0 else [])
                    raw = http.build_request(m, target.decode("latin-1"), hd, data, host="h.example:81")
                    c.send(raw)
                    rsp = c.read_response(m)
                    out.append((rsp.status, sorted((k.lower(), v) for k, v in rsp.headers if k.lower() not in (b"date",)), rsp.body))
                if out[0] != out[1]:
                    chk.violation("rewritten", "%s %s rewritten (%s) differs from %s: %r / %r" % (m, orig, kind, direct, out[0], out[1]), {"target": t.decode(), "kind": kind, "query": q.decode(), "config": conf})
                chk.ok(same=kind, status=out[0][0], m=m)
        except (http.Closed, http.ProtoError, http.Timeout) as e:
            chk.inconcl("same: %s: %s" % (type(e).__name__, e))
            srv.verify("requests", expect_alive=True)
        finally:
            c.close()
    check.parallel(8, one, range(chk.n(120)))
    srv.verify("end")
    srv.stop()


def run(chk):
    build.build("asan")
    for name, f in (("gen", gen_part), ("same", same_part)):
        if not chk.args.only or name in chk.args.only.split(","):
            f(chk)


if __name__ == "__main__":
    c = check.Check("P35", rule="one evaluation = one request whose rewritten path/query/raw path, redirect, headers, environment, mapping and body were compared with a reference evaluation of the generated rules, or a rewritten request compared with the same request sent directly; distinct = sets of rules taken / kinds and statuses")
    check.run(c, run, min_evals=3000)
