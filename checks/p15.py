"""P15: protected content only with user name and password the user file accepts; 401 + challenge otherwise; user file changes take effect."""
import base64
import hashlib
import os
import re
import subprocess
import threading
import time
import warnings

warnings.simplefilter("ignore")
import crypt  # noqa: E402

from vf import build, check, http, server  # noqa: E402

SECRET = b"TOP-SECRET-CONTENT-SECRET-%s"


def apr1(pw, salt):
    return subprocess.run(["openssl", "passwd", "-apr1", "-salt", salt, "-stdin"], input=pw.encode("latin-1") + b"\n", capture_output=True, check=True).stdout.decode().strip()


def lenient_b64(v):
    """every byte string a lenient decoder could see: skip characters outside the alphabet"""
    t = re.sub(rb"[^A-Za-z0-9+/=]", b"", v)
    out = set()
    for cand in (t, t.split(b"=")[0], t.replace(b"=", b"")):
        for pad in range(4):
            try:
                out.add(base64.b64decode(cand + b"=" * pad))
            except Exception:
                pass
        while len(cand) % 4:
            cand = cand[:-1]
        try:
            out.add(base64.b64decode(cand))
        except Exception:
            pass
    return out


class Users:
    """one user file and what it accepts"""

    def __init__(self, kind, realm, r, names):
        self.kind = kind
        self.realm = realm
        self.pw = {}
        self.stored = {}
        for n in names:
            p = "".join(r.choice("abcdefgXYZ0189 !$:{}/._-\xe9") for _ in range(r.choice([1, 3, 7, 8, 9, 12, 20, 40])))
            p = p.strip() or "p"
            self.put(r, n, p)

    def put(self, r, n, p):
        self.pw[n] = p
        salt = "".join(r.choice("abcdefghijkABCDEFGH0123456789./") for _ in range(8))
        if self.kind == "plain":
            self.stored[n] = p
        elif self.kind == "htdigest":
            self.stored[n] = self.realm + ":" + hashlib.md5(("%s:%s:%s" % (n, self.realm, p)).encode("latin-1")).hexdigest()
        else:
            f = r.choice(["apr1", "sha", "des", "md5", "sha256", "sha512"])
            pb = p.encode("latin-1").decode("latin-1")
            if f in ("des", "md5", "sha256", "sha512") and not p.isascii():
                p = self.pw[n] = p.replace("\xe9", "e")
                pb = p
            self.stored[n] = {"apr1": lambda: apr1(pb, salt), "sha": lambda: "{SHA}" + base64.b64encode(hashlib.sha1(pb.encode("latin-1")).digest()).decode(),
                              "des": lambda: crypt.crypt(pb, salt[:2]), "md5": lambda: crypt.crypt(pb, "$1$" + salt),
                              "sha256": lambda: crypt.crypt(pb, "$5$rounds=1000$" + salt), "sha512": lambda: crypt.crypt(pb, "$6$rounds=1000$" + salt)}[f]()

    def text(self, r):
        items = list(self.stored.items())
        r.shuffle(items)
        eol = r.choice(["\n", "\n", "\r\n"])
        t = eol.join("%s:%s" % kv for kv in items) + r.choice(["", eol, eol + eol])
        return t.encode("latin-1")

    def accepts(self, user, pw):
        try:
            user = user.decode("latin-1")
            pw = pw.decode("latin-1")
        except Exception:
            return False
        if user not in self.pw:
            return False
        if "\0" in pw:
            return False
        st = self.stored[user]
        if self.kind == "htpasswd" and not st.startswith(("$apr1$", "{SHA}")):
            if "$" not in st[:1]:       # DES: 8 characters, 7 bits
                a, b = [bytes(c & 0x7f for c in x.encode("latin-1"))[:8].ljust(8, b"\0") for x in (pw, self.pw[user])]
                return a == b
        return pw == self.pw[user]


def run(chk):
    build.build("asan")
    root = os.path.join(chk.scratch, "www")
    os.makedirs(root + "/d")
    for n in ("a", "b.txt", "d/index.html"):
        with open(os.path.join(root, n), "wb") as f:
            f.write(SECRET % n.encode())
    r0 = chk.rng("users")
    names = ["alice", "bob", "carol", "Al", "alic", "u-1", "x.y@z", "BOB", "longusername" * 4]
    realm = {"plain": "plain realm", "htpasswd": "pw", "htdigest": "digest realm"}
    U = {k: Users(k, realm[k], r0, names) for k in realm}
    D = {k: Users(k, realm[k], r0, names[:4]) for k in realm}   # mutated while the server runs
    files = {}
    for k in realm:
        for tag, u in (("s", U), ("d", D)):
            files[tag + k] = os.path.join(chk.scratch, "users-%s-%s" % (tag, k))
            with open(files[tag + k], "wb") as f:
                f.write(u[k].text(r0))
    br = ""
    for k in realm:
        if k == "plain":
            files["e"] = os.path.join(chk.scratch, "same-second")
            with open(files["e"], "w") as f:
                f.write("user:a00000\n")
            br += 'if req.path =^ "/e/" { auth.plain ["method" => "basic", "realm" => "%s", "file" => "%s", "ttl" => 1]; alias "/e/" => "%s/"; index ["index.html"]; static; }\n' % (realm[k], files["e"], root)
        for tag, ttl in (("s", 10), ("d", 1)):
            br += 'if req.path =^ "/%s%s/" { auth.%s ["method" => "basic", "realm" => "%s", "file" => "%s", "ttl" => %d]; alias "/%s%s/" => "%s/"; index ["index.html"]; static; }\n' % (
                tag, k, k, realm[k], files[tag + k], ttl, tag, k, root)
    br += 'if req.path =^ "/only/" { auth.plain ["method" => "basic", "realm" => "%s", "file" => "%s"]; if req.environment["REMOTE_USER"] != "alice" { auth.deny; } alias "/only/" => "%s/"; static; }\n' % (realm["plain"], files["splain"], root)
    br += 'if req.path =^ "/deny/" { auth.deny; alias "/deny/" => "%s/"; static; }\n' % root
    srv = server.Server(chk, "keepalive.requests 100000;\n" + br, modules=["mod_auth"], workers=4).start()

    def mutate(r, u, kind):
        """-> (user bytes, password bytes, label)"""
        n = r.choice(list(u.pw))
        p = u.pw[n]
        k = r.choice(["good", "good", "good", "prefix", "ext", "nul", "nulext", "case", "other", "hash", "empty", "space", "ucase", "uprefix", "uext", "uspace", "unul", "nocolon", "emptyuser", "flip", "realm", "half"])
        if k == "prefix":
            p = p[:r.randrange(len(p) + 1)] if r.random() < 0.5 else p[:-1]
        elif k == "ext":
            p += r.choice(["x", " ", "\n", "\r", ":", "\x80", p])
        elif k == "nul":
            p += "\0" + r.choice(["", "x", p])
        elif k == "nulext":
            p = p[:len(p) // 2] + "\0" + p[len(p) // 2:]
        elif k == "case":
            p = p.swapcase()
        elif k == "other":
            p = u.pw[r.choice(list(u.pw))]
        elif k == "hash":
            p = u.stored[n] if kind != "plain" else hashlib.md5(p.encode("latin-1")).hexdigest()
        elif k == "empty":
            p = ""
        elif k == "space":
            p = " " + p
        elif k == "ucase":
            n = n.swapcase()
        elif k == "uprefix":
            n = n[:-1]
        elif k == "uext":
            n += r.choice(["x", "\x80", "\n"])
        elif k == "uspace":
            n = " " + n
        elif k == "unul":
            n += "\0" + r.choice(["", "x"])
        elif k == "emptyuser":
            n = ""
        elif k == "flip":
            i = r.randrange(len(p))
            p = p[:i] + chr(ord(p[i]) ^ r.choice([1, 2, 0x20, 0x80, 0x40])) + p[i + 1:]
        elif k == "realm":
            p = realm[kind] + ":" + p
        elif k == "half":
            return n.encode("latin-1"), None, k
        elif k == "nocolon":
            return (n + p).encode("latin-1"), None, k
        return n.encode("latin-1"), p.encode("latin-1"), k

    def header(r, raw):
        e = base64.b64encode(raw)
        k = r.choice(["std", "std", "std", "std", "nopad", "junk", "lower", "spaces", "tab", "trail", "break", "none", "digest", "bare"])
        if k == "std":
            return k, b"Basic " + e
        if k == "nopad":
            return k, b"Basic " + e.rstrip(b"=")
        if k == "junk":
            i = r.randrange(len(e) + 1)
            return k, b"Basic " + e[:i] + r.choice([b"!", b"-", b"_", b"*", b"=", b"%3d"]) + e[i:]
        if k == "lower":
            return k, r.choice([b"basic ", b"BASIC "]) + e
        if k == "spaces":
            return k, b"Basic   " + e
        if k == "tab":
            return k, b"Basic\t" + e
        if k == "trail":
            return k, b"Basic " + e + r.choice([b" ", b" x", b", Basic " + e, b"===="])
        if k == "break":
            return k, b"Basic " + e[:len(e) // 2]
        if k == "none":
            return k, None
        if k == "digest":
            return k, b'Digest username="alice", realm="plain realm", nonce="", uri="/", response=""'
        return k, r.choice([b"Basic", b"Basic ", b"", e, b"Basic :", b"Basic ===", b"Negotiate " + e])

    def send(c, r, path, hs):
        method = r.choice(["GET", "GET", "GET", "HEAD"])
        m = http.build_request(method, path, hs, None, "1.1", b"localhost")
        c.send(m)
        return method, c.read_response(method)

    def judge(rsp, method, kind, must, may, wit, rl):
        """must: credentials certainly right; may: a lenient reading could make them right"""
        if rsp.status == 200:
            if not may:
                chk.violation("accepted:%s" % kind, "protected content delivered for wrong credentials (%s)" % wit.get("label"), wit)
                return
            if method == "GET" and b"SECRET" not in rsp.body:
                chk.violation("content", "authorized request got %r" % rsp.body[:60], wit)
        else:
            if b"SECRET" in rsp.body:
                chk.violation("leak", "status %d but protected content in the body" % rsp.status, wit)
            if must:
                chk.violation("refused:%s" % kind, "valid credentials refused with %d" % rsp.status, wit)
                return
            if rsp.status == 401:
                w = rsp.all(b"www-authenticate")
                if w != [b'Basic realm="%s"' % rl.encode()]:
                    chk.violation("challenge", "401 with challenge %r" % w, wit)
            elif rsp.status != 400:
                chk.violation("status", "unauthorized request answered %d" % rsp.status, wit)

    def static_round(i, attempt=0):
        r = chk.rng("s", i)
        c = http.Conn(port=srv.port, timeout=60)
        try:
            for _ in range(12):
                kind = r.choice(list(realm))
                u = U[kind]
                user, pw, lab = mutate(r, u, kind)
                raw = user if pw is None else user + b":" + pw
                if lab == "half":
                    raw += b":"
                hk, hv = header(r, raw)
                hs = []
                if hv is not None:
                    hs.append((r.choice(["Authorization", "authorization", "AUTHORIZATION"]), hv.decode("latin-1")))
                if r.random() < 0.1:
                    hs.append((r.choice(["Proxy-Authorization", "X-Authorization", "Authorization2", "Remote-User"]), "Basic " + base64.b64encode(("alice:" + u.pw["alice"]).encode("latin-1")).decode()))
                route = r.choice(["s" + kind] * 6 + ["only", "deny"])
                if route == "only":
                    u = U["plain"]
                path = "/%s/%s" % (route, r.choice(["a", "b.txt", "d/", "none", "a?x", "d/../a", "./a", "%61"]))
                may = False
                std = hv is not None and hv.startswith(b"Basic ")
                if std:
                    for dec in lenient_b64(hv[6:]):
                        n, sep, p = dec.partition(b":")
                        if sep and u.accepts(n, p):
                            may = True
                must = hk == "std" and pw is not None and b":" not in user and u.accepts(user, pw)
                if hv is not None and hv[:6].lower() == b"basic " and not std:
                    # case-insensitive scheme: tolerated either way
                    n, sep, p = raw.partition(b":")
                    may = bool(sep and u.accepts(n, p))
                method, rsp = send(c, r, path, hs)
                wit = {"path": path, "headers": hs, "label": lab, "hk": hk, "user": user, "pw": pw, "stored": u.stored.get(user.decode("latin-1")), "status": rsp.status}
                if route == "deny":
                    if rsp.status != 403 or b"SECRET" in rsp.body:
                        chk.violation("deny", "auth.deny answered %d" % rsp.status, wit)
                elif route == "only":
                    if rsp.status == 200 and not (may and user == b"alice"):
                        chk.violation("only", "content for user %r" % user, wit)
                    if b"SECRET" in rsp.body and rsp.status != 200:
                        chk.violation("leak", "status %d but protected content in the body" % rsp.status, wit)
                    if must and rsp.status != 404 and rsp.status != (200 if user == b"alice" else 403):
                        chk.violation("only", "authenticated %r got %d" % (user, rsp.status), wit)
                else:
                    if path.endswith("none"):
                        if rsp.status not in ((404,) if must else (401, 404) if may else (401,)) and rsp.status != 400:
                            chk.violation("missing", "%d for a missing file, valid=%s" % (rsp.status, must), wit)
                    else:
                        judge(rsp, method, kind, must, may, wit, realm[kind])
                chk.ok(kind=kind, label=lab, header=hk, valid="must" if must else "may" if may else "no", status=rsp.status)
        except (http.Timeout, http.Closed) as e:
            return ("noanswer", repr(e), {"i": i})
        finally:
            c.close()
        return None

    def twice(i):
        v = static_round(i)
        if v:
            v2 = static_round(i, 1)
            if v2:
                chk.violation(*v2)
            else:
                chk.inconcl(v[1])

    # ---- changing user files: background traffic over all the time, so that every reload happens under load
    stop = threading.Event()

    def noise(k):
        r = chk.rng("noise", k)
        while not stop.is_set():
            try:
                c = http.Conn(port=srv.port, timeout=60)
                for _ in range(50):
                    kind = r.choice(list(realm))
                    send(c, r, "/d%s/a" % kind, [("Authorization", "Basic " + base64.b64encode(b"alice:x").decode())])
                    if stop.is_set():
                        break
                c.close()
            except (http.Timeout, http.Closed, OSError):
                pass
            time.sleep(0.002)

    def write(r, kind, how):
        data = D[kind].text(r)
        p = files["d" + kind]
        if how == "inplace":
            with open(p, "wb") as f:
                f.write(data)
        else:
            with open(p + ".new", "wb") as f:
                f.write(data)
            if how == "old":
                t = time.time() - r.choice([30, 3600, 10 ** 7])
                os.utime(p + ".new", (t, t))
            os.rename(p + ".new", p)

    def dynamic():
        r = chk.rng("dyn")
        for rnd in range(chk.n(6)):
            before = {}
            for kind in realm:
                u = D[kind]
                before[kind] = dict(u.pw), dict(u.stored)
                for _ in range(r.randrange(1, 4)):
                    k = r.choice(["add", "del", "chg", "chg"])
                    if k == "add" or len(u.pw) < 2:
                        u.put(r, "n%d%d" % (rnd, r.randrange(99)), "pw%d" % r.randrange(10 ** 6))
                    elif k == "del":
                        n = r.choice(list(u.pw))
                        del u.pw[n], u.stored[n]
                    else:
                        u.put(r, r.choice(list(u.pw)), "chg%d" % r.randrange(10 ** 6))
                write(r, kind, ["inplace", "rename", "old"][(rnd + list(realm).index(kind)) % 3])
            time.sleep(2.2)
            c = http.Conn(port=srv.port, timeout=60)
            for kind in realm:
                u = D[kind]
                for n in set(u.pw) | set(before[kind][0]):
                    for p in {u.pw.get(n), before[kind][0].get(n)} - {None}:
                        good = u.accepts(n.encode("latin-1"), p.encode("latin-1"))
                        m, rsp = send(c, r, "/d%s/a" % kind, [("Authorization", "Basic " + base64.b64encode(("%s:%s" % (n, p)).encode("latin-1")).decode())])
                        if rsp.status != (200 if good else 401):
                            chk.violation("reload:%s" % kind, "2.2 s after changing the user file (ttl 1): user %r password %r answered %d, file says %s" % (n, p, rsp.status, good),
                                          {"round": rnd, "how": ["inplace", "rename", "old"][(rnd + list(realm).index(kind)) % 3]})
                        chk.ok(reload=kind, change="%s->%s" % (before[kind][0].get(n) == p, good), how=["inplace", "rename", "old"][(rnd + list(realm).index(kind)) % 3])
            c.close()

    def samesecond():
        """changes that keep size and inode, two of them within one second with a look at the file in between"""
        r = chk.rng("samesec")
        c = http.Conn(port=srv.port, timeout=60)
        p = files["e"]

        def put(pw):
            with open(p, "r+b") as f:
                f.write(b"user:%s\n" % pw)

        def status(pw):
            m, rsp = send(c, r, "/e/a", [("Authorization", "Basic " + base64.b64encode(b"user:" + pw).decode())])
            return rsp.status
        for i in range(chk.n(4)):
            a, b, n = b"a%05d" % r.randrange(10 ** 5), b"b%05d" % r.randrange(10 ** 5), 0
            time.sleep(1.4)
            while not 0.02 < time.time() % 1 < 0.2:
                time.sleep(0.01)
            t0 = int(time.time())
            put(a)
            status(a)
            put(b)
            same = int(time.time()) == t0
            time.sleep(2.3)
            sa, sb = status(a), status(b)
            if (sa, sb) != (401, 200):
                chk.violation("reload:same-second", "2.3 s after the last change (ttl 1, same size%s): old password answered %d, new one %d" % (", two changes in one second" if same else "", sa, sb), {"round": i})
            chk.ok(samesecond=same)
        c.close()

    nt = [threading.Thread(target=samesecond, daemon=True)] + [threading.Thread(target=noise, args=(k,), daemon=True) for k in range(4)]
    for t in nt:
        t.start()
    dt = threading.Thread(target=dynamic, daemon=True)
    dt.start()
    check.parallel(8, twice, range(chk.n(2500)))
    dt.join(120)
    stop.set()
    for t in nt:
        t.join(60)
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P15", rule="one evaluation = one request with generated credentials against an independent evaluation of the user file; distinct = file kinds, credential mutations, header forms, reload cases")
    check.run(c, run, min_evals=3000)
