"""P33: file and directory changes become visible within the stat cache lifetime, on every worker, and never as a mix."""
import email.utils
import hashlib
import os
import re
import shutil
import threading
import time

from vf import build, check, http, server

TTL = 3
ROUNDS = 5


def content(path, ver, size):
    h = hashlib.sha1(("%s#%d" % (path, ver)).encode()).hexdigest()
    head = "%s %d %d " % (h, ver, size)
    body = (h * (size // 40 + 1))[:size]
    return (head + body).encode()


def parse(data):
    """-> version or None if it is not one complete version"""
    m = re.match(rb"^([0-9a-f]{40}) (\d+) (\d+) ", data)
    if not m:
        return None
    size = int(m.group(3))
    if data[m.end():] != (m.group(1) * (size // 40 + 1))[:size]:
        return None
    return int(m.group(2))


class Tree:
    def __init__(self, root, n):
        self.root = root
        self.n = n
        os.makedirs(root)
        self.state = {}     # name -> None | ("f", ver, size, mtime) | ("d", {name: size})
        self.ver = 0
        self.allv = {}      # (name, ver) -> (size, mtime)
        for i in range(n):
            self.state["p%d" % i] = None

    def file(self, r, name, how):
        self.ver += 1
        size = r.choice([0, 10, 100, 5000, 70000])
        mt = 1400000000 + self.ver * 7
        p = os.path.join(self.root, name)
        tmp = os.path.join(self.root, ".tmp%d" % self.ver)
        data = content(name, self.ver, size)
        self.allv[(name, self.ver)] = (len(data), mt)
        if how == "rename":
            with open(tmp, "wb") as f:
                f.write(data)
            os.utime(tmp, (mt, mt))
            os.rename(tmp, p)
        else:
            with open(p, "wb") as f:
                f.write(data)
            os.utime(p, (mt, mt))
        self.state[name] = ("f", self.ver, len(data), mt)

    def mutate(self, r, name, atomic):
        st = self.state[name]
        p = os.path.join(self.root, name)
        k = r.choice(["file", "file", "dir", "none"])
        if st and st[0] == "d":
            if k == "dir":
                # change the entries
                for e in r.sample(sorted(st[1]), min(len(st[1]), 2)):
                    os.unlink(os.path.join(p, e))
                    del st[1][e]
                for _ in range(r.randrange(1, 3)):
                    e = "e%d" % r.randrange(1000)
                    with open(os.path.join(p, e), "wb") as f:
                        f.write(b"x" * r.randrange(50))
                    st[1][e] = os.path.getsize(os.path.join(p, e))
                if st[1] and r.random() < 0.5:
                    e = r.choice(sorted(st[1]))     # an entry changes its size, the directory does not change
                    with open(os.path.join(p, e), "ab") as f:
                        f.write(b"yy")
                    st[1][e] += 2
                return "dir-entries"
            shutil.rmtree(p)
            self.state[name] = None
            if k == "file":
                self.file(r, name, "rename")
                return "dir->file"
            return "rmdir"
        if k == "dir":
            if st:
                os.unlink(p)
            os.mkdir(p)
            self.state[name] = ("d", {})
            return "file->dir" if st else "mkdir"
        if k == "none":
            if st:
                os.unlink(p)
                self.state[name] = None
                return "unlink"
            return "same"
        how = "rename" if atomic or not st else r.choice(["rename", "inplace"])
        self.file(r, name, how)
        return ("create" if not st else "replace-" + how)


def run(chk):
    build.build("asan")
    N = 40
    trees = {}
    srvs = {}
    for ttl in (0, TTL):
        t = trees[ttl] = Tree(os.path.join(chk.scratch, "www%d" % ttl), N)
        conf = """keepalive.requests 1000000; keepalive.timeout 60; mime_types [ "" => "text/plain" ]; static.range_requests false;
if req.path =^ "/cond/" { alias "/cond/" => "%s/";
  if phys.exists == "true" { if phys.is_dir == "true" { respond 200 => "dir"; } else { respond 200 => "file %%{phys.size}"; } } else { respond 200 => "none"; } }
else if req.path =^ "/idx/" { alias "/idx/" => "%s/"; index [ "p0", "p1", "p2" ]; static; }
else { docroot "%s"; dirlist; static; }
""" % (t.root, t.root, t.root)
        conf = conf.replace('if phys.exists == "true" {', "if phys.exists {").replace('if phys.is_dir == "true" {', "if phys.is_dir {")
        srvs[ttl] = server.Server(chk, conf, setup="stat_cache.ttl %d;" % ttl, modules=["mod_dirlist"], workers=4).start()

    def look(c, ttl, name, kind, tol=None):
        """compare what the server says about name with the disk; -> None or description"""
        t = trees[ttl]
        st = t.state[name]
        if kind == "cond":
            c.send(http.build_request("GET", "/cond/" + name))
            rsp = c.read_response("GET")
            want = b"none" if st is None else b"dir" if st[0] == "d" else b"file %d" % st[2]
            return None if rsp.body == want else "condition on the path saw %r, it is %r" % (rsp.body[:50], want)
        if kind == "idx":
            order = [n for n in ("p0", "p1", "p2") if t.state[n] and t.state[n][0] == "f"]
            if any(t.state[n] and t.state[n][0] == "d" for n in ("p0", "p1", "p2")):
                return None     # a directory named like an index file
            c.send(http.build_request("GET", "/idx/"))
            rsp = c.read_response("GET")
            if order:
                if rsp.status != 200 or parse(rsp.body) != t.state[order[0]][1]:
                    return "index file: %d %r, current is %s %r" % (rsp.status, rsp.body[:60], order[0], t.state[order[0]])
            elif rsp.status == 200:
                return "index file: 200 %r, none exists" % rsp.body[:60]
            return None
        if kind == "root":
            c.send(http.build_request("GET", "/"))
            rsp = c.read_response("GET")
            got = set(re.findall(r'<a href="([^"]+)">', rsp.body.decode()[rsp.body.find(b"<tbody>"):].split("</tbody>")[0])) - {"../"}
            want = {n + ("/" if s[0] == "d" else "") for n, s in t.state.items() if s}
            return None if got == want else "listing of / differs: extra %r missing %r" % (sorted(got - want), sorted(want - got))
        if st is None:
            c.send(http.build_request("GET", "/" + name))
            rsp = c.read_response("GET")
            return None if rsp.status == 404 else "deleted path answered %d %r" % (rsp.status, rsp.body[:40])
        if st[0] == "d":
            c.send(http.build_request("GET", "/%s/" % name))
            rsp = c.read_response("GET")
            if rsp.status != 200:
                return "directory answered %d" % rsp.status
            got = dict(re.findall(r'<a href="([^"]+)">.*?class="size" val="(\d+)"', rsp.body.decode()))
            got.pop("../", None)
            want = {n: str(s) for n, s in st[1].items()}
            return None if got == want else "listing of the directory shows %r, it has %r" % (got, want)
        m = "HEAD" if kind == "head" else "GET"
        c.send(http.build_request(m, "/" + name))
        rsp = c.read_response(m)
        lm = (rsp.get(b"last-modified") or b"").decode()
        if rsp.status != 200:
            return "file answered %d" % rsp.status
        if m == "GET" and parse(rsp.body) != st[1]:
            return "file content is version %r, current is %d" % (parse(rsp.body), st[1])
        if lm != email.utils.formatdate(st[3], usegmt=True):
            return "Last-Modified %r does not belong to version %d" % (lm, st[1])
        if m == "HEAD" and rsp.get(b"content-length") != str(st[2]).encode():
            return "Content-Length %r, current size %d" % (rsp.get(b"content-length"), st[2])
        return None

    KINDS = ["get", "get", "head", "cond", "idx", "root"]
    stop = threading.Event()
    pause = {0: threading.Event(), TTL: threading.Event()}

    def background(ttl, j):
        """keeps the caches filled; whatever comes back has to be one complete version with its own metadata"""
        r = chk.rng("bg", ttl, j)
        c = None
        t = trees[ttl]
        while not stop.is_set():
            try:
                if c is None:
                    c = http.Conn(port=srvs[ttl].port, timeout=60)
                name = "p%d" % r.randrange(N)
                k = r.choice(["/", "/", "/cond/", "dir", "idx"])
                if k == "dir":
                    c.send(http.build_request("GET", "/%s/" % name if r.random() < 0.7 else "/"))
                elif k == "idx":
                    c.send(http.build_request("GET", "/idx/"))
                else:
                    c.send(http.build_request("GET", k + name))
                rsp = c.read_response("GET")
                if k == "/" and rsp.status == 200:
                    v = parse(rsp.body)
                    lm = (rsp.get(b"last-modified") or b"").decode()
                    if name in atomic[ttl]:
                        known = {email.utils.formatdate(m, usegmt=True): s for (n, vv), (s, m) in list(t.allv.items()) if n == name and vv == v}
                        if v is None or lm not in known:
                            chk.violation("mix", "replaced file: content is version %r, Last-Modified %r belongs to another version" % (v, lm), {"path": name, "body": rsp.body[:200]})
                        chk.ok(background="atomic")
                    else:
                        chk.ok(background="inplace")
                if not rsp.keepalive():
                    c.close()
                    c = None
            except (http.Closed, http.ProtoError, OSError) as e:
                if c:
                    c.close()
                c = None
                # files rewritten in place may shrink under a running response
                time.sleep(0.01)

    atomic = {ttl: {"p%d" % i for i in range(N) if i % 2 or i < 3} for ttl in (0, TTL)}

    def verify(ttl, names, conns, r, ops, first_wait):
        for name in names:
            for kind in r.sample(KINDS, 3):
                cs = r.sample(conns, 4)
                for c in cs:
                    for attempt in (0, 1):
                        bad = look(c, ttl, name, kind)
                        if bad is None or ttl == 0:
                            break
                        time.sleep(0.7)
                    if bad:
                        chk.violation("stale:%s:%s" % (kind, "ttl0" if ttl == 0 else "ttl"), "%s after %s, lifetime %d: %s" % ("at once" if ttl == 0 else "%.1f s" % (first_wait + 0.7), ops.get(name), ttl, bad), {"path": name, "kind": kind})
                    chk.ok(ttl=ttl, op=ops.get(name), look=kind)

    def driver(ttl):
        r = chk.rng("drv", ttl)
        t = trees[ttl]
        conns = [http.Conn(port=srvs[ttl].port, timeout=60) for _ in range(24)]
        try:
            for rnd in range(chk.n(ROUNDS) if ttl else chk.n(60)):
                ops = {}
                if ttl:
                    for name in t.state:
                        if r.random() < 0.7:
                            ops[name] = t.mutate(r, name, name in atomic[ttl])
                    time.sleep(ttl + 1.0)
                    verify(ttl, list(t.state), conns, r, ops, ttl + 1.0)
                else:
                    for name in r.sample(sorted(t.state), 8):
                        ops[name] = t.mutate(r, name, name in atomic[ttl])
                        verify(ttl, [name], conns, r, ops, 0)
        except Exception as e:
            import traceback
            traceback.print_exc()
            errs.append(e)

    errs = []
    bg = [threading.Thread(target=background, args=(ttl, j), daemon=True) for ttl in (0, TTL) for j in range(3)]
    dr = [threading.Thread(target=driver, args=(ttl,), daemon=True) for ttl in (0, TTL)]
    for x in bg + dr:
        x.start()
    for x in dr:
        x.join()
    stop.set()
    for x in bg:
        x.join(30)
    if errs:
        raise errs[0]
    for s in srvs.values():
        s.verify("end")
        s.stop()


if __name__ == "__main__":
    c = check.Check("P33", rule="one evaluation = one request after a file system change compared with the disk (one of 24 connections over 4 workers), or one concurrent response checked to be a single version; distinct = changes x ways to look")
    check.run(c, run, min_evals=3000)
