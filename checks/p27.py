"""P27: request data cannot inject headers or markup"""
import html
import html.parser
import json
import os
import random
import re
import threading
import time
import urllib.parse

from vf import backends, build, check, http, server

KNOWN = {b"date", b"server", b"content-length", b"content-type", b"connection", b"location", b"last-modified", b"etag", b"accept-ranges",
         b"transfer-encoding", b"cache-control", b"x-t", b"allow", b"www-authenticate", b"keep-alive", b"vary", b"expires"}
SPLIT = [b"\r\nX-Inj: 1", b"\nX-Inj: 1", b"\rX-Inj: 1", b"\r\n\r\n<vfx>", b"\n\nHTTP/1.1 200 OK\r\nX-Inj: 1\r\n\r\n", b"\r\n X-Inj: 1", b"\n\tX-Inj: 1\r\nX-Inj: 2",
         b"\r\nLocation: http://vfx/", b"\r\nSet-Cookie: vfx=1", b"\r\r\nX-Inj: 1", b"\x0b\nX-Inj: 1", b"\n", b"\r", b"\r\n"]
MARKUP = [b"<vfx>", b"\"><vfx>", b"'><vfx>", b"\" vfxa=\"1", b"' vfxa='1", b"</title><vfx>", b"</a></td><vfx>", b"<script>vfx()</script>", b"<!--vfx", b"--><vfx>",
          b"&lt;vfx&gt;", b"<vfx", b"\"onmouseover=vfxa ", b"</style><vfx>", b"]]><vfx>", b"<img src=vfx onerror=vfxa>", b"%3Cvfx%3E", b"<a href=\"javascript:vfx\">", b"\xffvfx<vfx>", b"&#60;vfx&#62;"]


class Page(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.bad = []
        self.rows, self.row, self.cell = [], None, None
        self.links, self.link = [], None
        self.title, self.intitle, self.raw = "", False, None

    def handle_starttag(self, tag, attrs):
        if "vfx" in tag:
            self.bad.append("element <%s>" % tag)
        for k, v in attrs:
            if "vfx" in k or k.startswith("on") and v and "vfx" in v:
                self.bad.append("attribute %s of <%s>" % (k, tag))
            if k in ("href", "src") and v and v.strip().lower().startswith(("javascript:", "data:", "vbscript:")):
                self.bad.append("%s=%r" % (k, v))
        if tag in ("script", "style"):
            self.raw = tag
        if tag == "tr":
            self.row = []
            self.rows.append(self.row)
        elif tag in ("td", "th") and self.row is not None:
            self.cell = ""
        elif tag == "a":
            self.link = [dict(attrs).get("href"), ""]
            self.links.append(self.link)
        elif tag == "title":
            self.intitle = True

    def handle_endtag(self, tag):
        if tag == self.raw:
            self.raw = None
        if tag in ("td", "th") and self.cell is not None:
            self.row.append(self.cell)
            self.cell = None
        elif tag == "a":
            self.link = None
        elif tag == "title":
            self.intitle = False

    def handle_data(self, d):
        if self.raw and "vfx" in d:
            self.bad.append("text of the request inside <%s>" % self.raw)
        if self.cell is not None:
            self.cell += d
        if self.link is not None:
            self.link[1] += d
        if self.intitle:
            self.title += d

    def handle_comment(self, d):
        if "vfx" in d:
            self.bad.append("comment")

    def handle_decl(self, d):
        if "vfx" in d:
            self.bad.append("declaration")

    handle_pi = unknown_decl = handle_decl


def payload(r):
    b = b""
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        if k < 0.35:
            b += r.choice(SPLIT)
        elif k < 0.8:
            b += r.choice(MARKUP)
        elif k < 0.9:
            b += bytes(r.choice([9, 10, 13, 32, 34, 38, 39, 60, 62, 127, 128, 255, 47, 37, 59, 61]) for _ in range(r.randrange(1, 6)))
        else:
            b += b"plain" + str(r.randrange(100)).encode()
    return b.replace(b"\0", b"")


def enc(r, b, query=False):
    """percent-encode so that the request is accepted; bytes that may appear raw sometimes do"""
    o = b""
    for c in b:
        ch = bytes([c])
        if c <= 32 or c >= 127 or ch in b"%#" or (ch == b"?" and not query) or (ch == b"/" and not query and r.random() < 0.5):
            o += b"%%%02x" % c
        elif r.random() < (0.15 if chr(c).isalnum() else 0.4):
            o += b"%%%02X" % c
        else:
            o += ch
    return o


class Env:
    def __init__(self, chk):
        self.chk = chk
        d = chk.scratch
        self.doc = os.path.join(d, "doc")
        os.makedirs(os.path.join(self.doc, "dir"))
        self.release = threading.Event()
        self.stub = backends.HttpStub(lambda rec: [("wait", self.release), ("send", b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"), ("close",)], backlog=512)
        chk.cleanup(self.release.set)
        chk.cleanup(self.stub.stop)
        # directories whose names, and the names of what they contain, are hostile
        r = chk.rng("names")
        self.dirs = {}
        for i in range(24):
            while True:
                n = (b"d%d" % i + payload(r)).replace(b"/", b"|")[:120]
                if n not in self.dirs:
                    break
            p = os.path.join(os.fsencode(self.doc), b"dir", n)
            os.mkdir(p)
            names = {}
            for j in range(8):
                m = payload(r).replace(b"/", b"|")[:100] + b"_%d" % j + r.choice([b"", b".txt", b".html", b"<vfx>.txt"])
                if j % 3 == 0:
                    os.mkdir(os.path.join(p, m))
                    names[m] = True
                else:
                    with open(os.path.join(p, m), "wb") as f:
                        f.write(b"x" * j)
                    names[m] = False
            with open(os.path.join(p, b"HEADER.txt"), "wb") as f:
                f.write(b"header <vfx> \" & text\n")
            self.dirs[n] = names
        with open(os.path.join(self.doc, "plain.txt"), "w") as f:
            f.write("hello")
        conf = """
docroot "@D@";
if req.path == "/status" { status.info; }
else if req.path == "/statusrt" { status.info; }
else if req.path == "/dbg" { debug.show_connections; }
else if req.path == "/progress" { progress.show "jsonp"; }
else if req.path == "/progressl" { progress.show "legacy"; }
else if req.path =^ "/hang" { proxy "@P@"; }
else if req.path =^ "/r1" { redirect "^/r1(?s)(.*)$" => "http://target/$1"; }
else if req.path =^ "/r2" { redirect "./x$0"; }
else if req.path =^ "/r3" { redirect "?new=%{req.query}"; }
else if req.path =^ "/r4" { redirect "/abs%{req.path}?%{req.query}"; }
else if req.path =^ "/r5" { redirect "http://%{req.host}%{enc:req.path}"; }
else if req.path =^ "/r6" { redirect "./y"; }
else if req.path =^ "/r7" { redirect "?z"; }
else if req.path =~ "^/h1(?s)(.*)$" { header.add "X-T" => "%1"; respond 200 => "ok"; }
else if req.path =~ "^/h2(?s)(.*)$" { header.add "X-T" => "a"; header.append "X-T" => "%1"; respond 200 => "ok"; }
else if req.path =~ "^/h3(?s)(.*)$" { header.add "X-T" => "a"; header.overwrite "X-T" => "%1"; respond 200 => "ok"; }
else if req.path =^ "/h4" { header.add "X-T" => "%{req.query}|%{req.header[X-V]}|%{req.path}"; respond 200 => "ok"; }
else if req.path =^ "/h5" { header.overwrite "X-T" => "%{req.header[X-V]}"; header.append "X-T" => "%{req.path}"; respond 404; }
else if req.path =^ "/h6" { env.set "Q" => "%{req.path}"; header.add "X-T" => "%{req.env[Q]}"; respond 200 => "ok"; }
else if req.path =^ "/deny" { access.deny; }
else if req.path =^ "/err" { respond 403; }
else if req.path =^ "/dir/" { dirlist [ "include-header" => true, "encode-header" => true ]; }
else if req.path =^ "/list/" { alias "/list/" => "@D@/dir/"; dirlist ; }
static;
"""
        conf = conf.replace("@D@", self.doc).replace("@P@", self.stub.addr())
        conf = conf.replace('else if req.path == "/statusrt" { status.info; }\n', 'else if req.path == "/statusrt" { status.info "short"; }\n')
        self.srv = server.Server(chk, conf, modules=["mod_status", "mod_debug", "mod_progress", "mod_proxy", "mod_redirect", "mod_dirlist", "mod_access"], setup="io.timeout 60;", workers=2)
        self.srv.start()

    def ask(self, raw, method="GET"):
        c = http.Conn(port=self.srv.port, timeout=30)
        try:
            c.send(raw)
            x = c.read_response(method)
            rest = bytearray(c.buf)
            c.buf = bytearray() if isinstance(c.buf, bytearray) else b""
            while c.fill():
                rest += c.buf
                c.buf = bytearray() if isinstance(c.buf, bytearray) else b""
            return x, bytes(rest)
        finally:
            c.close()


def judge(e, raw, x, rest, what, wit):
    """general rules for every response"""
    if rest:
        return ("extra", "%s: %d bytes follow the complete response: %r" % (what, len(rest), rest[:80]), wit)
    if x.raw_head.count(b"\n") != x.raw_head.count(b"\r\n") or x.raw_head.count(b"\r") != x.raw_head.count(b"\r\n") or re.search(rb"\r\n[ \t]", x.raw_head):
        return ("header-line", "%s: a header line is broken up: %r" % (what, x.raw_head[:300]), wit)
    for k, v in x.headers:
        n = k.lower()
        if n not in KNOWN:
            return ("header-injected", "%s: response has the header %r: %r" % (what, k, v), wit)
        if re.search(rb"[\r\n\0]", v):
            return ("header-newline", "%s: header %r contains a line break: %r" % (what, k, v), wit)
        if n not in (b"x-t",) and sum(1 for q, _ in x.headers if q.lower() == n) > 1:
            return ("header-twice", "%s: header %r appears twice" % (what, k), wit)
    ct = (x.get(b"content-type") or b"").lower()
    if b"html" in ct or x.body[:20].lstrip().lower().startswith((b"<!doctype", b"<html", b"<?xml")):
        p = Page()
        p.feed(bytes(x.body).decode("latin-1"))
        p.close()
        if p.bad:
            return ("markup", "%s: text of the request or file system is markup in the page: %s" % (what, p.bad[0]), dict(wit, page=bytes(x.body)[:3000].decode("latin-1")))
        return p
    return None


PATHS = [b"/r1", b"/r2", b"/r3", b"/r4", b"/r5", b"/r6", b"/r7", b"/h1", b"/h2", b"/h3", b"/h4", b"/h5", b"/h6", b"/deny", b"/err", b"/none", b"/plain.txt/", b"/status", b"/statusrt", b"/dbg", b"/progress", b"/progressl"]


def reflect(e, i):
    chk = e.chk
    r = random.Random(chk.seed * 99991 + i)
    base = PATHS[i % len(PATHS)]
    a, q = payload(r), payload(r)
    special = base in (b"/status", b"/statusrt", b"/dbg", b"/progress", b"/progressl")
    path = base
    if not special:
        path += b"/" + enc(r, a)
        if r.random() < 0.3:
            path += b"/" + enc(r, payload(r))
    query = b""
    if base in (b"/status", b"/statusrt"):
        query = b"?refresh=" + enc(r, q, True)
    elif base == b"/progress":
        query = b"?X-Progress-Id=" + enc(r, a, True).replace(b"&", b"").replace(b";", b"")[:100] + b"&X-Progress-Callback=" + r.choice([enc(r, q, True), b"cb.ok_1", b"alert(1)//", b"a;b", b"a%0a"])
    elif r.random() < 0.7:
        query = b"?" + enc(r, q, True)
    hv = re.sub(rb"[\0\r\n]", b"", payload(r))
    if r.random() < 0.3:
        hv = hv + b"\r\n X-Inj: 1"          # folded header line
    hv = re.sub(rb'["\\]', b"", hv)         # an unbalanced quoted string is refused
    hv = bytes(c for c in hv if c in (9, 10, 13) or 32 <= c < 127)
    method = r.choice([b"GET", b"GET", b"GET", b"HEAD"])
    host = r.choice([b"test", b"a.b.example:8080", b"[::1]"])
    raw = b"%s %s%s HTTP/1.1\r\nHost: %s\r\nX-V: %s\r\nConnection: close\r\n\r\n" % (method, path, query, host, hv)
    wit = dict(seed=chk.seed, item=i, request=raw.decode("latin-1"))
    try:
        x, rest = e.ask(raw, method.decode())
    except http.ProtoError as ex:
        return ("not-http", "%s: the response is not HTTP: %s" % (base.decode(), ex), wit)
    except (http.Closed, http.Timeout) as ex:
        if not e.srv.alive():
            return None
        return ("no-answer", "%s: no response: %r" % (base.decode(), ex), wit)
    p = judge(e, raw, x, rest, base.decode(), wit)
    if isinstance(p, tuple):
        return p
    if x.status == 400:
        chk.count("refused", base.decode())
        return None
    if base in (b"/h1", b"/h2", b"/h3", b"/h4", b"/h5", b"/h6") and not x.get(b"x-t"):
        return ("header-missing", "%s: no X-T header" % base.decode(), wit)
    if base in (b"/r2", b"/r3", b"/r5", b"/r6", b"/r7") and x.status == 301:
        loc = x.get(b"location") or b""
        part = loc.split(b"?")[0] if base != b"/r2" else loc
        if re.search(rb"[^!-~]", part) and base != b"/r2":
            return ("location-raw", "%s: the path in the Location %r is not encoded" % (base.decode(), loc), wit)
        if base in (b"/r6", b"/r7", b"/r5"):
            want = re.sub(rb"[\x00-\x1f\x7f]", b"_", urllib.parse.unquote_to_bytes(path))     # control characters become _
            got = urllib.parse.unquote_to_bytes(re.sub(rb"^http://[^/]*", b"", part))
            if base == b"/r6":
                want = want[:want.rindex(b"/") + 1] + b"y"
            if b"//" not in want and b"/." not in want and got != want:
                return ("location-path", "%s: Location %r leads to %r, expected %r" % (base.decode(), loc, got, want), wit)
    if base == b"/progress" and x.status == 200 and method == b"GET":
        m = re.fullmatch(rb"([A-Za-z0-9._]*)\((\{.*\})\)", bytes(x.body))
        if not m:
            return ("jsonp", "progress.show sends %r" % bytes(x.body)[:200], wit)
        json.loads(m.group(2))
    if base == b"/progressl" and x.status == 200 and method == b"GET" and not re.fullmatch(rb"new Object\(\{.*\}\)", bytes(x.body)):
        return ("legacy", "progress.show sends %r" % bytes(x.body)[:200], wit)
    chk.ok(endpoint=base.decode(), status=str(x.status), method=method.decode())
    return None


def shown(b):
    return b.decode("latin-1")


def listing(e, i):
    chk = e.chk
    r = random.Random(chk.seed * 7 + i)
    n = sorted(e.dirs)[i % len(e.dirs)]
    names = e.dirs[n]
    base = r.choice([b"/dir/", b"/list/"])
    slash = r.random() < 0.8
    path = base + enc(r, n).replace(b"%2f", b"/") + (b"/" if slash else b"")
    raw = b"GET %s%s HTTP/1.1\r\nHost: test\r\nConnection: close\r\n\r\n" % (path, b"?a=<vfx>" if r.random() < 0.3 else b"")
    wit = dict(seed=chk.seed, item=i, request=raw.decode("latin-1"), dir=repr(n))
    try:
        x, rest = e.ask(raw)
    except http.ProtoError as ex:
        return ("not-http", "listing: the response is not HTTP: %s" % ex, wit)
    except (http.Closed, http.Timeout) as ex:
        return ("no-answer", "listing: %r" % ex, wit) if e.srv.alive() else None
    p = judge(e, raw, x, rest, "listing", wit)
    if isinstance(p, tuple):
        return p
    ctl = re.search(rb"[\x00-\x1f\x7f]", n)
    if x.status == 404 and ctl:
        chk.ok(listing="control", slash=str(slash))
        return None         # paths with control bytes are not looked up under that name
    if not slash:
        loc = x.get(b"location") or b""
        got = urllib.parse.unquote_to_bytes(re.sub(rb"^http://[^/]*", b"", loc.split(b"?")[0]))
        if x.status != 301 or got != base + n + b"/" or re.search(rb"[^!-~]", loc):
            return ("dir-redirect", "directory without slash: %d Location %r leads to %r" % (x.status, loc, got), wit)
        chk.ok(listing="redirect", base=base.decode())
        return None
    if x.status != 200 or not isinstance(p, Page):
        return ("listing-status", "directory listing answered %d" % x.status, wit)
    if shown(n) not in p.title:
        return ("listing-title", "the title %r does not show the path" % p.title, wit)
    got = {}
    for href, text in p.links:
        if href != "../":
            got[text] = href
    for m, isdir in names.items():
        t = shown(m)
        if re.search(rb"[\x00-\x1f\x7f]", m):
            # parsers replace some control characters; the link has to be right nevertheless
            if not any(urllib.parse.unquote_to_bytes(h.encode("latin-1").split(b"?")[0]) == m + (b"/" if isdir else b"") for h in got.values()):
                return ("listing-link", "no link leads to the entry %r" % m, wit)
            continue
        if t not in got:
            if t.startswith(".") or t.endswith("~"):
                continue
            return ("listing-name", "entry %r is not shown under its name" % m, dict(wit, shown=sorted(got)))
        u = urllib.parse.urljoin("http://h/x/y/", got[t])
        want = b"/x/y/" + m + (b"/" if isdir else b"")
        if urllib.parse.unquote_to_bytes(urllib.parse.urlsplit(u).path.encode("latin-1")) != want:
            return ("listing-link", "the link %r of entry %r leads elsewhere" % (got[t], m), wit)
    chk.ok(listing="full", base=base.decode())
    return None


def status_rows(e, i):
    """connections with hostile hosts, paths and queries are listed on the status pages"""
    chk = e.chk
    r = random.Random(chk.seed * 131 + i)
    e.release.clear()
    open_, want = [], []
    for k in range(12):
        a, q = payload(r), payload(r)
        path = b"/hang%d_" % k + enc(r, a.replace(b"/", b"|").replace(b".", b"_"))
        query = enc(r, q, True)
        c = http.Conn(port=e.srv.port, timeout=30)
        c.send(b"GET %s?%s HTTP/1.1\r\nHost: h%d.example\r\n\r\n" % (path, query, k))
        open_.append(c)
        want.append((path, query, b"h%d.example" % k))
    try:
        res = None
        for attempt in range(40):
            time.sleep(0.05)
            for url, name in ((b"/status", "status"), (b"/dbg", "debug"), (b"/status?refresh=9", "status refresh")):
                raw = b"GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n" % url
                wit = dict(seed=chk.seed, item=i, url=url.decode(), connections=[(p.decode(), q.decode("latin-1")) for p, q, _ in want])
                try:
                    x, rest = e.ask(raw)
                except (http.Closed, http.Timeout, http.ProtoError) as ex:
                    return ("no-answer", "%s: %r" % (name, ex), wit) if e.srv.alive() else None
                p = judge(e, raw, x, rest, name, wit)
                if isinstance(p, tuple):
                    return p
                if url == b"/status":
                    rows = {}
                    for row in p.rows:
                        if len(row) > 4:
                            rows[row[2]] = row[3]
                    res = None
                    for pth, q, h in want:
                        t = rows.get(h.decode())
                        full = shown(urllib.parse.unquote_to_bytes(pth)) + ("?" if q else "") + shown(q)
                        norm = lambda s: re.sub(r"[\x00-\x20\x7f-\x9f\ufffd_?]", "_", re.sub(r"[\u0100-\uffff]", "_", s))
                        if t is None:
                            res = ("status-missing", "the connection of host %s is not listed" % h.decode(), wit)
                        elif norm(t) != norm(full):
                            res = ("status-text", "the status page shows %r for %r" % (t, full), wit)
                    if res and res[0] == "status-text":
                        return res
            if res is None:
                break
        if res:
            return res
        chk.ok(n=12, status="rows")
        return None
    finally:
        e.release.set()
        for c in open_:
            c.close()


def run(chk):
    build.build("asan")
    e = Env(chk)
    only = chk.args.only.split(",") if chk.args.only else None

    def wrap(f):
        def g(i):
            v = f(e, i)
            if v and v[0] in ("no-answer", "status-missing"):
                v2 = f(e, i)
                if not v2:
                    return chk.inconcl("%s once: %s" % (v[0], v[1]))
                v = v2
            if v:
                chk.violation(*v)
        return g
    if not only or "reflect" in only:
        check.parallel(8, wrap(reflect), range(chk.n(12000)))
    if not only or "listing" in only:
        check.parallel(8, wrap(listing), range(chk.n(1500)))
    if not only or "status" in only:
        for i in range(chk.n(12)):
            wrap(status_rows)(i)
    e.srv.stop()
    e.srv.verify("P27", expect_alive=False)


if __name__ == "__main__":
    c = check.Check("P27", rule="one evaluation = one response built from hostile request data or file names, its raw header lines, framing and parsed HTML/JSON judged; distinct = endpoint x status x method")
    check.run(c, run, min_evals=500)
