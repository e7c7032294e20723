"""P16: access.check decides by the most specific rule; network conditions match exactly their network."""
import ipaddress
import threading

from vf import build, check, fakeaddr, http, server

V4 = ["10.0.0.0", "192.168.0.0", "127.0.0.0", "0.0.0.0", "255.255.255.255", "128.0.0.0", "172.16.0.0"]
V6 = ["fe80::", "2001:db8::", "::", "::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "2001:db8:1:2:3:4:5:6", "8000::", "::ffff:0:0"]
LOCAL = [ipaddress.ip_address(a) for a in ("127.0.0.1", "127.0.0.2", "127.0.1.1", "127.128.0.1")]


def bits(v):
    return 32 if v == 4 else 128


def rnd_addr(r, v, near=()):
    """address, often sharing a long prefix with one of near"""
    n = bits(v)
    if near and r.random() < 0.75:
        base = int(r.choice(near))
        keep = r.randrange(0, n + 1)
        x = (base >> (n - keep) << (n - keep)) | (r.getrandbits(n) & ((1 << (n - keep)) - 1))
    elif r.random() < 0.4:
        x = int(ipaddress.ip_address(r.choice(V4 if v == 4 else V6)))
    else:
        x = r.getrandbits(n)
    return (ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address)(x)


def rnd_plen(r, v):
    if r.random() < 0.5:
        return r.choice([0, 1, 7, 8, 9, 15, 16, 23, 24, 25, 30, 31, 32] if v == 4 else
                        [0, 1, 8, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 112, 126, 127, 128])
    return r.randrange(0, bits(v) + 1)


def spell(r, a):
    """some textual form of an address"""
    if a.version == 4:
        return str(a)
    k = r.randrange(6)
    if k == 0:
        s = a.exploded
    elif k == 1:
        s = ":".join("%x" % int(g, 16) for g in a.exploded.split(":"))
    elif k == 2:
        x = int(a)
        s = ":".join("%x" % ((x >> (112 - 16 * i)) & 0xffff) for i in range(6)) + ":" + str(ipaddress.IPv4Address(x & 0xffffffff))
    elif k == 3:
        s = a.compressed.upper()
    else:
        s = a.compressed
    return s


def spell_net(r, a, plen):
    s = spell(r, a)
    if plen == bits(a.version) and r.random() < 0.5:
        return s if a.version == 4 or r.random() < 0.7 else "[%s]" % s
    if a.version == 6 and r.random() < 0.2:
        return r.choice(["[%s/%d]", "[%s]/%d"]) % (s, plen)
    return "%s/%d" % (s, plen)


def in_net(a, base, plen):
    if a.version != base.version:
        return False
    sh = bits(a.version) - plen
    return int(a) >> sh == int(base) >> sh


class Rules:
    def __init__(self, r, name):
        self.name = name
        self.nets = []          # (addr, plen, allow) in order
        lists = {"allow": [], "deny": []}
        order = r.choice([["allow", "deny"], ["deny", "allow"], ["allow"], ["deny", "allow"]])
        pool4, pool6 = [], []
        cnt = r.choice([1, 2, 3, 6, 12, 25])
        for w in order:
            for _ in range(cnt if r.random() < 0.9 else 1):
                if r.random() < 0.04:
                    lists[w].append("all")
                    for v, z in ((4, "0.0.0.0"), (6, "::")):
                        self.nets.append((ipaddress.ip_address(z), 0, w == "allow"))
                    continue
                v = r.choice([4, 6])
                pool = pool4 if v == 4 else pool6
                a = rnd_addr(r, v, pool)
                p = rnd_plen(r, v)
                pool.append(a)
                lists[w].append(spell_net(r, a, p))
                self.nets.append((a, p, w == "allow"))
        self.text = "access.check (%s);" % ", ".join('"%s" => [%s]' % (w, ", ".join('"%s"' % x for x in lists[w])) for w in order)

    def allowed(self, a):
        best = -1
        res = False
        for b, p, al in self.nets:
            if p >= best and in_net(a, b, p):
                best, res = p, al
        return res

    def depth(self, a):
        return sum(1 for b, p, al in self.nets if in_net(a, b, p))


class Cond:
    def __init__(self, r, name):
        self.name = name
        self.lv = r.choice(["req.remoteip", "req.remoteip", "req.localip"])
        self.op = r.choice(["=/", "!/", "=/", "!/", "==", "!="])
        v = r.choice([4, 6]) if self.lv == "req.remoteip" else 4
        self.a = rnd_addr(r, v, LOCAL if self.lv == "req.localip" else ())
        self.p = rnd_plen(r, v)
        if self.lv == "req.localip" and r.random() < 0.3:
            self.a = r.choice(LOCAL)
        if self.op in ("==", "!="):
            self.p = bits(v)
            txt = self.a.compressed
        else:
            txt = spell_net(r, self.a, self.p)
        self.text = 'if %s %s "%s" { respond 200 => "yes"; } else { respond 200 => "no"; }' % (self.lv, self.op, txt)

    def expect(self, rem, loc):
        m = in_net(rem if self.lv == "req.remoteip" else loc, self.a, self.p)
        return "yes" if m == (self.op[0] != "!") else "no"


def run(chk):
    build.build("asan")
    tab = fakeaddr.AddrTab(chk)
    for rnd in range(chk.n(3)):
        r = chk.rng("conf", rnd)
        rules = [Rules(r, "r%d" % i) for i in range(60)]
        conds = [Cond(r, "c%d" % i) for i in range(60)]
        conf = "keepalive.requests 1000000; keepalive.timeout 120; access.log_blocked true;\n"
        for x in rules:
            conf += 'if req.path == "/%s" { %s respond 200 => "secret"; }\n' % (x.name, x.text)
            conf += 'if req.path == "/d%s" { %s }\n' % (x.name, 'if req.remoteip =/ "0.0.0.0/0" { access.deny; } respond 200 => "secret";')
        for x in conds:
            conf += 'if req.path == "/%s" { %s }\n' % (x.name, x.text)
        conf += 'if req.path == "/who" { respond 200 => "%{req.remoteip} %{req.remoteport} %{req.localip} %{req.localport}"; }\n'
        locs = [(a, server.free_port(str(a))) for a in LOCAL]
        srv = server.Server(chk, conf, setup="".join('listen "%s:%d";\n' % l for l in locs), modules=["mod_access"], workers=3, preload=tab.so, env=tab.env).start()

        def one(i):
            r = chk.rng("addr", rnd, i)
            x = r.choice(rules + conds)
            near = [n[0] for n in x.nets] if isinstance(x, Rules) else [x.a]
            b = r.choice(near) if near else rnd_addr(r, 4)
            n = bits(b.version)
            # around the edges of a rule's network
            k = r.randrange(5)
            p = r.choice([q[1] for q in x.nets if q[0].version == b.version]) if isinstance(x, Rules) else x.p
            v = int(b)
            host = n - p
            if k == 0:
                v = v >> host << host
            elif k == 1:
                v |= (1 << host) - 1
            elif k == 2 and p > 0:
                v ^= 1 << host
            elif k == 3 and host > 0:
                v ^= 1 << (host - 1)
            else:
                v = int(rnd_addr(r, b.version, near and [q for q in near if q.version == b.version]))
            if r.random() < 0.15:
                v = (v + r.choice([-1, 1])) % (1 << n)
            rem = (ipaddress.IPv4Address if b.version == 4 else ipaddress.IPv6Address)(v)
            rport = r.randrange(1, 65536)
            loc, lport = r.choice(locs)
            c = tab.connect(lport, rem, rport, host=str(loc))
            todo = r.sample(rules, 12) + r.sample(conds, 12) + [x]
            try:
                for y in todo:
                    m = r.choice(["GET", "HEAD", "GET"])
                    deny = isinstance(y, Rules) and r.random() < 0.1
                    c.send(http.build_request(m, "/" + ("d" if deny else "") + y.name))
                    rsp = c.read_response(m)
                    got = (rsp.status, rsp.body.decode("latin-1") if m == "GET" else None)
                    if deny:
                        want = rem.version == 6
                    elif isinstance(y, Rules):
                        want = y.allowed(rem)
                    if isinstance(y, Rules):
                        if want:
                            ok = got[0] == 200 and got[1] in (None, "secret")
                        else:
                            ok = got[0] == 403 and "secret" not in (got[1] or "")
                        if not ok:
                            chk.violation("access", "client %s with rules %s should be %s, got %r" % (rem, y.text, "allowed" if want else "refused", got),
                                          {"client": str(rem), "rules": y.text, "nets": [str(q) for q in y.nets]})
                        chk.ok(access=want, version=rem.version, depth=min(y.depth(rem), 5))
                    else:
                        want = y.expect(rem, loc)
                        if got[0] != 200 or got[1] not in (None, want):
                            chk.violation("cond", "client %s at %s: %s gave %r, expected %s" % (rem, loc, y.text, got, want), {"client": str(rem), "local": str(loc), "cond": y.text})
                        chk.ok(cond=y.op, lv=y.lv, want=want, version=rem.version)
                c.send(http.build_request("GET", "/who"))
                got = c.read_response("GET").body.decode()
                want = "%s %d %s %d" % (rem, rport, loc, lport)
                gw = got.split(" ")
                try:
                    same = len(gw) == 4 and ipaddress.ip_address(gw[0].strip("[]")) == rem and ipaddress.ip_address(gw[2].strip("[]")) == loc and (gw[1], gw[3]) == (str(rport), str(lport))
                except ValueError:
                    same = False
                if not same:
                    chk.violation("who", "client %s reported as %s" % (want, got), {"want": want})
                chk.ok(who=rem.version)
            except (http.Closed, http.ProtoError, http.Timeout) as e:
                chk.inconcl("%s" % e)
                srv.verify("client %s" % rem)
            finally:
                c.close()
        check.parallel(16, one, range(chk.n(150)))
        srv.verify("end")
        srv.stop()


if __name__ == "__main__":
    c = check.Check("P16", rule="one evaluation = one request from a generated client/local address whose access decision or network condition was compared with an independent longest-prefix evaluator; distinct = (decision, address family, nesting depth) and (operator, attribute, outcome, family) classes")
    check.run(c, run, min_evals=3000)
