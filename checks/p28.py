"""P28: directory listings show exactly the visible entries, with links that fetch them."""
import html
import html.parser
import os
import re
import stat
import urllib.parse

from vf import build, check, http, server

SPECIAL = ["HEADER.txt", "README.txt", "header.txt", "README.txt.bak", "a.bak", "b.bak.txt", "tmp_x", "x_tmp_", "x~", "~x", "~", ".hid", "..x", "...", ".~", "%41", "%2e%2e", "%", "a%00b", "a&amp;b", "<b>", "<script>alert(1)</script>".replace("/", "|"),
           "a\"b", "a'b", "a b", " lead", "trail ", "a?b", "a#b", "a:b", "a;b", "a+b", "a\\b", "a=b&c", "\xe4\xf6", "caf\u00e9", "\u65e5\u672c", "L" * 255, "index.html", "q?x=1#y", "--><x>", "]]>", "@", "javascript:x", "http:", "*", "[x]", "{a}", "|", "^", "`", "!", "(x)", "$1", ",",
           "a\nb", "a\tb", "\x01", "\x7f", "a\rb", "s.txt", "t.tar.gz", "UP.TXT"]


class Page(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=False)
        self.tags = []
        self.title = self.h2 = ""
        self.cur = None
        self.rows = []
        self.pre = []
        self.cell = None

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        self.tags.append(tag)
        if tag == "title":
            self.cur = "title"
        elif tag == "h2":
            self.cur = "h2"
        elif tag == "pre":
            self.cur = "pre"
            self.pre.append("")
        elif tag == "tr" and a.get("group") != "-1":
            self.rows.append({"group": a.get("group"), "name": "", "type": "", "size": None, "mtime": None, "href": None})
        elif tag == "a" and self.rows:
            self.rows[-1]["href"] = a.get("href")
            self.cell = "name"
        elif tag == "td" and self.rows:
            c = a.get("class")
            if c == "size":
                self.rows[-1]["size"] = a.get("val")
            elif c == "modified":
                self.rows[-1]["mtime"] = a.get("val")
            elif c == "type":
                self.cell = "type"

    def handle_endtag(self, tag):
        if tag in ("title", "h2", "pre"):
            self.cur = None
        if tag in ("a", "td"):
            self.cell = None

    def handle_charref(self, n):
        self.handle_data(chr(int(n[1:], 16) if n[:1] in "xX" else int(n)))

    def handle_entityref(self, n):
        self.handle_data(html.unescape("&%s;" % n))

    def handle_data(self, d):
        if self.cur == "title":
            self.title += d
        elif self.cur == "h2":
            self.h2 += d
        elif self.cur == "pre":
            self.pre[-1] += d
        if self.cell and self.rows:
            self.rows[-1][self.cell] += d


ALLOWED = {"html", "head", "title", "style", "body", "h2", "div", "table", "thead", "tr", "th", "tbody", "td", "a", "script", "link", "pre"}

OPTS = {
    "def": {},
    "dots": {"hide-dotfiles": False},
    "tilde": {"hide-tildefiles": False, "hide-dotfiles": False},
    "nodirs": {"hide-directories": True, "hide-dotfiles": False, "hide-tildefiles": False},
    "suf": {"exclude-suffix": [".bak", "b"], "hide-tildefiles": False},
    "pre": {"exclude-prefix": ["tmp", "a"], "hide-dotfiles": False},
    "hdr": {"include-header": True, "hide-header": True},
    "hdr2": {"include-header": True, "hide-readme": True, "include-readme": False},
    "norm": {"include-readme": False, "hide-header": True, "hide-readme": True, "content-type": "text/html; charset=x-test"},
    "all": {"hide-dotfiles": False, "hide-tildefiles": False, "include-readme": False, "css": "/my.css"},
}


def lit(v):
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, list):
        return "[%s]" % ", ".join('"%s"' % x for x in v)
    return '"%s"' % v


def visible(o, name, isdir):
    if o.get("hide-dotfiles", True) and name[:1] == ".":
        return False
    if o.get("hide-tildefiles", True) and name[-1:] == "~":
        return False
    if any(name.endswith(s) for s in o.get("exclude-suffix", [])):
        return False
    if any(name.startswith(s) for s in o.get("exclude-prefix", [])):
        return False
    if isdir:
        return not o.get("hide-directories")
    if name == "HEADER.txt" and o.get("hide-header"):
        return False
    if name == "README.txt" and o.get("hide-readme"):
        return False
    return True


def enc(b):
    return b.decode("utf-8", "surrogateescape")


def run(chk):
    build.build("asan")
    root = os.path.join(chk.scratch, "www")
    os.makedirs(root)
    tree = {}       # rel dir (bytes, with trailing slash) -> {name(bytes): ("f", content, mtime) | ("d",) | ("x",)}
    r0 = chk.rng("tree")
    cnt = [0]

    def mk(rel, depth, n):
        path = os.path.join(os.fsencode(root), rel)
        os.makedirs(path, exist_ok=True)
        ents = tree[rel] = {}
        names = set()
        while len(names) < n:
            if r0.random() < 0.8:
                nm = r0.choice(SPECIAL)
                nb = nm.encode("latin-1") if nm == "\xe4\xf6" else nm.encode("utf-8")
            else:
                nb = bytes(r0.choice([c for c in range(1, 256) if c != 47]) for _ in range(r0.choice([1, 2, 5, 20])))
            if nb not in (b".", b".."):
                names.add(nb)
        for nb in names:
            p = os.path.join(path, nb)
            k = r0.random()
            if depth and k < 0.15 and len(rel) + len(nb) < 600 and not any(c < 32 or c == 127 for c in nb):
                mk(rel + nb + b"/", depth - 1, r0.choice([0, 1, 5, 12]))
                ents[nb] = ("d",)
            elif k < 0.2:
                os.mkdir(p)
                ents[nb] = ("d",)
            else:
                cnt[0] += 1
                data = (b"<i>file %d</i>&" % cnt[0]) * r0.choice([1, 1, 3, 100]) if r0.random() < 0.9 else b""
                if k < 0.28:
                    with open(os.path.join(chk.scratch, "t%d" % cnt[0]), "wb") as f:
                        f.write(data)
                    os.symlink(os.path.join(chk.scratch, "t%d" % cnt[0]), p)
                elif k < 0.31:
                    os.symlink("/nonexistent/x", p)
                    ents[nb] = ("x",)
                    continue
                else:
                    with open(p, "wb") as f:
                        f.write(data)
                mt = r0.choice([0, 1, 1500000000, 1700000000, 2 ** 31 + 5, 86400 * 365])
                os.utime(p, (mt, mt))
                ents[nb] = ("f", data, mt)

    mk(b"", 0, 3)
    for i in range(chk.n(24)):
        mk(b"d%d/" % i, 2, r0.choice([0, 1, 3, 10, 30, 60]))
    mk(b"big/", 0, 10)
    for i in range(3000):
        with open(os.path.join(root, "big", "n%04d" % i), "wb") as f:
            f.write(b"%d" % i)
        os.utime(os.path.join(root, "big", "n%04d" % i), (1600000000, 1600000000))
        tree[b"big/"][b"n%04d" % i] = ("f", b"%d" % i, 1600000000)
    for d in list(tree):
        for n, e in list(tree[d].items()):
            if e[0] == "d":
                if d == b"":
                    pass
                tree.setdefault(d + n + b"/", {})
    for i in range(chk.n(24)):
        tree[b""][b"d%d" % i] = ("d",)
    tree[b""][b"big"] = ("d",)
    dirs = sorted(d for d in tree if not any(c < 32 or c == 127 for c in d))    # others cannot be requested
    conf = 'keepalive.requests 1000000; mime_types [ ".txt" => "text/plain", ".gz" => "x/gz", ".tar.gz" => "x/tgz" ];\n'
    for o, d in OPTS.items():
        conf += 'if req.path =^ "/%s/" { alias "/%s/" => "%s/"; dirlist [ %s ]; static; }\n' % (o, o, root, ", ".join('"%s" => %s' % (k, lit(v)) for k, v in d.items()))
        conf = conf.replace("dirlist [  ]", "dirlist")
    conf += 'if req.path =^ "/off/" { alias "/off/" => "%s/"; static; }\n' % root
    srvs = [server.Server(chk, conf, setup="stat_cache.ttl %d;" % ttl, modules=["mod_dirlist"], workers=3).start() for ttl in (0, 10)]

    def quote(r, b):
        if r is None or r.random() < 0.7:
            return urllib.parse.quote_from_bytes(b, safe="/").encode()
        return "".join("%%%02x" % c if c != 47 else "/" for c in b).encode()

    def mtype(name):
        for s, m in ((b".tar.gz", "x/tgz"), (b".gz", "x/gz"), (b".txt", "text/plain")):
            if name.endswith(s):
                return m
        return "application/octet-stream"

    def one(i):
        r = chk.rng("q", i)
        srv = r.choice(srvs)
        c = http.Conn(port=srv.port, timeout=60)
        opt = r.choice(list(OPTS))
        o = OPTS[opt]
        d = r.choice(dirs)
        ents = tree[d]
        path = b"/" + opt.encode() + b"/" + d
        wit = {"path": path, "options": o, "entries": sorted(ents)[:50]}

        def v(key, what):
            chk.violation(key, what, wit)

        def q(method, target, hs=()):
            c.send(http.build_request(method, target, headers=hs, body=b"x" if method == "POST" else None))
            return c.read_response(method)
        k = r.random()
        if k < 0.12 and d:
            # without the slash: redirected, never listed
            rsp = q("GET", quote(r, path[:-1]))
            if rsp.status != 301 and rsp.status != 302:
                v("noslash", "directory without trailing slash answered %d" % rsp.status)
            loc = rsp.get(b"location") or b""
            m = re.match(rb"^http://localhost(/.*)$", loc)
            if not m or urllib.parse.unquote_to_bytes(m.group(1)) != path or b" " in loc:
                v("noslash-target", "redirected to %r" % loc)
            chk.ok(case="noslash")
            return c.close()
        if k < 0.2:
            rsp = q("GET", quote(r, b"/off/" + d))
            if rsp.status == 200 or b"Index of" in rsp.body:
                v("disabled", "listing although not enabled: %d" % rsp.status)
            chk.ok(case="off")
            return c.close()
        if k < 0.26:
            rsp = q(r.choice(["POST", "OPTIONS", "PUT" if False else "DELETE"]), quote(r, path))
            if b"Index of" in rsp.body or rsp.status == 200:
                v("method", "listing for another method: %d" % rsp.status)
            chk.ok(case="method")
            return c.close()
        rsp = q("GET", quote(r, path))
        if rsp.status != 200:
            v("status", "listing answered %d" % rsp.status)
            return c.close()
        ct = (rsp.get(b"content-type") or b"").decode()
        if ct != o.get("content-type", "text/html; charset=utf-8"):
            v("content-type", "content type %r" % ct)
        text = rsp.body.decode("utf-8", "surrogateescape")
        pg = Page()
        pg.feed(text)
        pg.close()
        want = "Index of " + enc(path)
        if pg.title != want or pg.h2 != want:
            v("title", "title %r / %r, expected %r" % (pg.title, pg.h2, want))
        bad = set(pg.tags) - ALLOWED
        if bad or pg.tags.count("script") != 1 or pg.tags.count("title") != 1:
            v("markup", "unexpected markup in the listing: %r" % sorted(bad))
        rows = list(pg.rows)
        if not rows or rows[0]["href"] != "../":
            v("parent", "no parent link")
        else:
            rows = rows[1:]
        got = {}
        for row in rows:
            if row["name"] in got:
                v("twice", "entry %r listed twice" % row["name"])
            got[row["name"]] = row
        exp = {}
        for nb, e in ents.items():
            n = enc(nb)
            if e[0] == "x":
                got.pop(n, None)    # dangling link: no type or size to show
            elif visible(o, n, e[0] == "d"):
                exp[n] = (nb, e)
        for n in set(exp) - set(got):
            v("missing", "entry %r is missing in the listing" % n)
        for n in set(got) - set(exp):
            v("hidden" if os.fsencode(n) in ents else "phantom", "entry %r must not be listed" % n)
        for n in set(exp) & set(got):
            row = got[n]
            nb, e = exp[n]
            if (e[0] == "d") != (row["type"] == "Directory") or (e[0] == "d") != (row["group"] == "1"):
                v("type", "%r listed as %r (group %s)" % (n, row["type"], row["group"]))
            if e[0] == "f":
                if row["size"] != str(len(e[1])) or row["mtime"] != str(e[2]):
                    v("meta", "%r listed with size %s mtime %s, really %d %d" % (n, row["size"], row["mtime"], len(e[1]), e[2]))
                if row["type"] != mtype(nb):
                    v("mime", "%r listed as %r" % (n, row["type"]))
            elif not row["href"].endswith("/"):
                v("dirlink", "link of directory %r is %r" % (n, row["href"]))
            u = urllib.parse.urlsplit(urllib.parse.urljoin("http://localhost" + quote(None, path).decode(), row["href"]))
            if u.netloc != "localhost" or u.query or u.fragment or urllib.parse.unquote_to_bytes(u.path) != path + nb + (b"/" if e[0] == "d" else b"") or re.search(r"[\x00-\x20\"<>\x7f-\U0010ffff]", row["href"]):
                v("link", "link of %r is %r" % (n, row["href"]))
        # included texts
        pre = []
        for fn, dflt in (("HEADER.txt", False), ("README.txt", True)):
            if o.get("include-" + fn[:6].lower(), dflt) and ents.get(fn.encode(), ("",))[0] == "f":
                pre.append(ents[fn.encode()][1].decode())
        if pg.pre != pre:
            v("include", "included texts %r, expected %r" % ([x[:80] for x in pg.pre], [x[:80] for x in pre]))
        # follow some links
        names = [n for n in got if n in exp and not any(ord(ch) < 32 or ord(ch) == 127 for ch in n)]
        for n in r.sample(names, min(len(names), 4)):
            nb, e = exp[n]
            u = urllib.parse.urlsplit(urllib.parse.urljoin("http://localhost" + quote(None, path).decode(), got[n]["href"]))
            rs = q("GET", u.path.encode())
            if e[0] == "f":
                if rs.status != 200 or rs.body != e[1]:
                    v("fetch", "link of %r fetches %d %r, the file has %r" % (n, rs.status, rs.body[:60], e[1][:60]))
            elif rs.status != 200 or b"Index of" not in rs.body:
                v("fetchdir", "link of directory %r fetches %d" % (n, rs.status))
            chk.ok(link=e[0])
        h = q("HEAD", quote(r, path))
        if h.status != 200 or (h.get(b"content-type") or b"").decode() != ct:
            v("head", "HEAD answered %d" % h.status)
        chk.ok(case=opt, ttl=srvs.index(srv), n=min(len(exp), 99) // 10)
        c.close()

    check.parallel(8, one, range(chk.n(4000)))
    for s in srvs:
        s.verify("end")
        s.stop()


if __name__ == "__main__":
    c = check.Check("P28", rule="one evaluation = one directory listing (or link from it) compared with the directory on disk and the hiding options; distinct = option sets, entry kinds, cases")
    check.run(c, run, min_evals=500)
