"""P36: Lua scripts see the request as it is and what they set takes effect; errors fail only their request."""
import hashlib
import os
import posixpath
import re
import threading
import time
import urllib.parse

from vf import backends, build, check, http, server

OPS = r'''
local filename, args = ...
local function unhex(s) return (s:gsub("%x%x", function(h) return string.char(tonumber(h, 16)) end)) end
local function hex(s)
	if s == nil then return "-" end
	if type(s) == "boolean" then return s and "T" or "F" end
	return "s" .. (tostring(s):gsub(".", function(c) return string.format("%02x", c:byte()) end))
end
local function flat(it, o, k)
	local r = {}
	for a, b in it, o, k do r[#r + 1] = hex(a) .. "=" .. hex(b) end
	return "L" .. table.concat(r, ",")
end
local F = {}
local function headers(h)
	return {
		get = function(k) return hex(h:get(k)) end,
		idx = function(k) return hex(h[k]) end,
		set = function(k, v) h:set(k, v) end,
		newidx = function(k, v) h[k] = v end,
		append = function(k, v) h:append(k, v) end,
		insert = function(k, v) h:insert(k, v) end,
		unset = function(k) h:unset(k) end,
		pairs = function() return flat(h:pairs()) end,
		list = function(k) return flat(h:list(k)) end,
		clear = function() h:clear() end,
		prune = function(k) for a, b in h:pairs() do if a:lower() == k:lower() then h[a] = nil end end end,
	}
end
local function envtab(e)
	return {
		get = function(k) return hex(e:get(k)) end,
		idx = function(k) return hex(e[k]) end,
		set = function(k, v) e:set(k, v) end,
		newidx = function(k, v) e[k] = v end,
		unset = function(k) e:unset(k) end,
		weak = function(k, v) e:weak_set(k, v) end,
		pairs = function() return flat(e:pairs()) end,
		clear = function() e:clear() end,
		grow = function(k) for a, b in e:pairs() do e[a .. k] = b; e[a] = nil end end,
	}
end
local function fields(o)
	return { get = function(f) return hex(o[f]) end, set = function(f, v) o[f] = v end }
end
local gl
local function perform(vr, text)
	local T = {
		h = headers(vr.req.headers), r = headers(vr.resp.headers), e = envtab(vr.env),
		u = fields(vr.req.uri), p = fields(vr.phys),
		q = { get = function(f) return hex(vr.req[f]) end },
		c = { get = function(f) return hex(vr.con[f]) end },
		s = { get = function() return hex(vr.resp.status) end, set = function(v) vr.resp.status = tonumber(v) end },
		v = { get = function(f) return hex(vr[f]) end },
		l = { md5 = function(s) return hex(lighty.md5(s)) end, sha1 = function(s) return hex(lighty.sha1(s)) end,
			sha256 = function(s) return hex(lighty.sha256(s)) end, simplify = function(s) return hex(lighty.path_simplify(s)) end },
		g = { set = function(v) marker = v end, get = function() return hex(marker) end,
			rset = function(v) REQ.marker = v end, rget = function() return hex(REQ.marker) end },
	}
	local res = {}
	for op in text:gmatch("[^;]+") do
		local w = {}
		for x in op:gmatch("[^,]+") do w[#w + 1] = x end
		for i = 3, #w do w[i] = unhex(w[i]:sub(2)) end
		local ok, r = pcall(T[w[1]][w[2]], w[3], w[4])
		res[#res + 1] = ok and (r or "ok") or "E"
	end
	return table.concat(res, ";")
end
actions = function(vr)
	local part = args or "a"
	local text = vr.req.headers["X-Ops-" .. part]
	vr.env["RES" .. part] = perform(vr, text)
end
'''


def hx(s):
    return "x" + s.encode("latin-1").hex()


def sh(v):
    if v is None:
        return "-"
    if v is True or v is False:
        return "T" if v else "F"
    return "s" + str(v).encode("latin-1").hex()


class Headers:
    def __init__(self, l):
        self.l = [list(x) for x in l]

    def all(self, k):
        return [x for x in self.l if x[0].lower() == k.lower()]

    def get(self, k):
        return sh(", ".join(x[1] for x in self.all(k)))

    idx = get

    def unset(self, k):
        self.l = [x for x in self.l if x[0].lower() != k.lower()]

    prune = unset

    def set(self, k, v):
        self.unset(k)
        self.insert(k, v)

    newidx = set

    def insert(self, k, v):
        self.l.append([k, v])

    def append(self, k, v):
        a = self.all(k)
        if a:
            a[-1][1] += ", " + v
        else:
            self.insert(k, v)

    def pairs(self):
        return "L" + ",".join(sh(a) + "=" + sh(b) for a, b in self.l)

    def list(self, k):
        return "L" + ",".join(sh(a) + "=" + sh(b) for a, b in self.all(k))

    def clear(self):
        self.l = []


class Env:
    def __init__(self, d):
        self.d = dict(d)

    def get(self, k):
        return sh(self.d.get(k))

    idx = get

    def set(self, k, v):
        self.d[k] = v

    newidx = set

    def unset(self, k):
        self.d.pop(k, None)

    def weak(self, k, v):
        self.d.setdefault(k, v)

    def clear(self):
        self.d = {}

    def grow(self, k):
        n = {}
        for a, b in list(self.d.items()):
            n[a + k] = b
        self.d = n

    def pairs(self):
        return "L" + ",".join(sorted(sh(a) + "=" + sh(b) for a, b in self.d.items()))


class Fields:
    def __init__(self, d, ro=()):
        self.d, self.ro = d, ro

    def get(self, f):
        return sh(self.d[f]) if f in self.d else "E"

    def set(self, f, v):
        if f not in self.d or f in self.ro:
            return "E"
        self.d[f] = v


def simplify(s):
    """reference for path simplification (same as request paths)"""
    from vf import urlref
    return urlref.simplify(s.encode("latin-1")).decode("latin-1")


class Model:
    def __init__(self, req_headers, env, uri, phys, q, con):
        self.h, self.r, self.e = Headers(req_headers), Headers([]), Env(env)
        self.u, self.p = Fields(uri), Fields(phys)
        self.q, self.c = q, con
        self.status = 0
        self.req = None

    def run(self, ops):
        out = []
        marker = None
        for op in ops:
            o, f, a = op[0], op[1], list(op[2:])
            if o in "hreup":
                r = getattr(getattr(self, o), f)(*a)
            elif o == "q":
                r = sh(self.q[a[0]]) if a[0] in self.q else "E"
            elif o == "c":
                r = sh(self.c[a[0]]) if a[0] in self.c else "E"
            elif o == "s":
                if f == "get":
                    r = sh(self.status)
                elif re.match(r"\d+$", a[0]) and 200 <= int(a[0]) <= 999:
                    self.status = int(a[0])
                    r = None
                else:
                    r = "E"
            elif o == "v":
                r = {"is_handled": "F", "has_response": "F"}.get(a[0], "E")
            elif o == "l":
                if f == "simplify":
                    r = sh(simplify(a[0]))
                else:
                    r = sh(hashlib.new(f, a[0].encode("latin-1")).hexdigest())
            elif o == "g":
                if f == "set":
                    marker = a[0]
                    r = None
                elif f == "get":
                    r = sh(marker)
                elif f == "rset":
                    self.req = a[0]
                    r = None
                else:
                    r = sh(self.req)
            out.append("ok" if r is None else r)
        return out


VAL = "abcXYZ019-_=/;:,. \"'%&?~\t\xe9\xff"
KEYS = ["X-A", "x-a", "X-B", "X-Long-Header-Name", "Y", "x-A", "Cookie", "Z-1"]
EKEYS = ["A", "B", "a", "set", "get", "pairs", "clear", "weak_set", "__index", "LONG_NAME_WITH_MANY_LETTERS", "x y", "\xe9"]
FAKE = ["nope", "headers2", "Raw", "", "path "]


def value(r, n=12):
    return "".join(r.choice(VAL) for _ in range(r.randrange(n))).strip(" \t")


def gen_ops(r, n):
    ops = []
    for _ in range(n):
        o = r.choice("hhhrrreeeeuuppqcsvlggg")
        if o in "hr":
            f = r.choice(["get", "idx", "set", "newidx", "append", "append", "insert", "insert", "unset", "pairs", "list", "clear" if r.random() < 0.2 else "get", "prune"])
            if o == "h" and f == "clear":
                f = "get"
            k = r.choice(KEYS)
            op = (o, f) + ((k, (value(r) or "v")) if f in ("set", "newidx", "append", "insert") else () if f in ("pairs", "clear") else (k,))
        elif o == "e":
            f = r.choice(["get", "set", "set", "newidx", "unset", "weak", "weak", "pairs", "idx", "clear" if r.random() < 0.3 else "get", "grow" if r.random() < 0.3 else "get"])
            k = r.choice(EKEYS)
            if f == "idx" and k in ("set", "get", "pairs", "clear", "weak_set", "__index"):
                f = "get"
            if f == "grow":
                k = "_" + r.choice("abc")
            op = (o, f) + ((k, value(r)) if f in ("set", "newidx", "weak") else () if f in ("pairs", "clear") else (k,))
        elif o == "u":
            f = r.choice(["raw", "raw_path", "raw_orig_path", "scheme", "authority", "path", "query", "host"] * 2 + FAKE)
            op = (o, "get", f) if r.random() < 0.6 else (o, "set", f, value(r))
        elif o == "p":
            f = r.choice(["path", "doc_root", "pathinfo"] * 2 + FAKE)
            op = (o, "get", f) if r.random() < 0.5 else (o, "set", f, value(r))
        elif o == "q":
            op = (o, "get", r.choice(["http_method", "http_version", "content_length"] * 3 + FAKE))
        elif o == "c":
            op = (o, "get", r.choice(["local", "remote"] * 3 + FAKE))
        elif o == "s":
            op = (o, "get") if r.random() < 0.4 else (o, "set", str(r.choice([200, 201, 299, 404, 503, 999, 199, 100, 0, 1000, 302, 65736])))
        elif o == "v":
            op = (o, "get", r.choice(["is_handled", "has_response", "nope", ""]))
        elif o == "l":
            op = (o, r.choice(["md5", "sha1", "sha256", "simplify"]), "".join(r.choice("/.ab") for _ in range(r.randrange(14))))
            if op[1] == "simplify":
                op = (o, op[1], "/" + op[2])
        else:
            f = r.choice(["set", "get", "rset", "rget"])
            op = (o, f) + ((value(r),) if "set" in f else ())
        ops.append(op)
    return ops


def enc(ops):
    return ";".join(",".join([o[0], o[1]] + [hx(a) for a in o[2:]]) for o in ops)


PATTERN = "%{req.path}|%{req.query}|%{req.host}|%{req.scheme}|%{phys.path}|%{phys.docroot}|%{phys.pathinfo}|%{req.env[A]}|%{req.env[B]}|%{req.header[X-A]}|%{req.header[Y]}"


def norm(res):
    """environment tables have no order"""
    return [x if not x.startswith("L") else "L" + ",".join(sorted(x[1:].split(","))) for x in res]


def write(p, t):
    with open(p, "w", encoding="latin-1") as f:
        f.write(t)
    return p


def part_ops(chk):
    d = os.path.join(chk.scratch, "ops")
    os.makedirs(d)
    f = write(os.path.join(d, "ops.lua"), OPS)
    shared = write(os.path.join(d, "shared.lua"), OPS.replace("local filename, args = ...", 'local args = "a"'))
    conf = """
docroot "%s";
env.set "B" => "preset";
if req.header["X-Kind"] == "handler" { lua.handler "%s", [], "a"; } else { include_lua "%s"; }
lua.handler "%s", [], "b";
header.add "X-Res-a" => "%%{req.env[RESa]}";
header.add "X-Res-b" => "%%{req.env[RESb]}";
respond 200 => "%s";
""" % (d, f, shared, f, PATTERN)
    srv = server.Server(chk, conf, modules=["mod_lua"], workers=3, name="p36ops").start()
    left = [chk.n(12000)]
    lock = threading.Lock()

    def client(t):
        r = chk.rng("ops", t)
        c = None
        while not chk.violations:
            with lock:
                if left[0] <= 0:
                    break
                left[0] -= 1
            a, b = gen_ops(r, r.randrange(1, 14)), gen_ops(r, r.randrange(0, 6))
            path = r.choice(["/", "/x", "/a/b", "/%41%20c", "/a/./b/../c"])
            query = r.choice(["", "a=b", "x%20y&z", "?"])
            host = r.choice(["example.org", "EXAMPLE.org:8080", "h.", "127.0.0.1"])
            kind = r.choice(["handler", "shared"])
            method = r.choice(["GET", "POST", "PUT"])
            ver = r.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"])
            src = "127.0.%d.%d" % (r.randrange(5), r.randrange(1, 250))
            raw = path + ("?" + query if query else "")
            hd = [["Host", host]] + [[r.choice(KEYS), value(r) or "v"] for _ in range(r.randrange(0, 5))]
            hd += [["X-Kind", kind], ["X-Ops-a", enc(a)], ["X-Ops-b", enc(b)]]
            for x in hd:
                x[1] = x[1].replace('"', "'")
            body = b"z" * r.randrange(0, 50) if method != "GET" else b""
            if method != "GET":
                hd.append(["Content-Length", str(len(body))])
            if ver == "HTTP/1.0":
                hd.append(["Connection", "keep-alive"])
            wire = ("%s %s %s\r\n" % (method, raw, ver) + "".join("%s: %s\r\n" % (k, v) for k, v in hd) + "\r\n").encode("latin-1") + body
            if c is None:
                c = http.Conn(port=srv.port, src=src)
                csrc = src
            dec = {"/": "/", "/x": "/x", "/a/b": "/a/b", "/%41%20c": "/A c", "/a/./b/../c": "/a/c"}[path]
            hostn = host.lower().split(":")[0].rstrip(".")
            uri = dict(raw=raw, raw_path=raw, raw_orig_path=raw, scheme="http", authority=host.lower(), path=dec, query=query, host=hostn)
            m = Model(hd, {"B": "preset"}, uri, dict(path=d + dec, doc_root=d, pathinfo=""),
                      dict(http_method=method, http_version=ver, content_length=len(body) if method != "GET" else 0), {"local": "127.0.0.1", "remote": csrc})
            want_a = m.run(a)
            m.e.d["RESa"] = ";".join(want_a)
            if kind == "handler":
                shared_req = m.req
            else:
                shared_req, m.req = m.req, None      # another Lua state
            want_b = m.run(b)
            try:
                c.send(wire)
                resp = c.read_response(method)
            except (http.Closed, http.Timeout) as e:
                chk.violation("no-answer", "request with harmless script operations was not answered: %s" % e, {"ops": [a, b], "wire": wire.decode("latin-1")})
                return
            if not resp.keepalive() or r.random() < 0.05:
                c.close()
                c = None
            got_a = (resp.get(b"x-res-a") or b"").decode("latin-1").split(";")
            got_b = [x for x in (resp.get(b"x-res-b") or b"").decode("latin-1").split(";") if x]
            chk.ok(len(a) + len(b), kind=kind)
            for o in a + b:
                chk.count("operation", "%s.%s" % o[:2])
            problem = None
            # an earlier script part may have removed what the second one needs
            gone = not m.h.l or not any(x[0] == "X-Ops-b" for x in m.h.l)
            env_gone = "RESa" not in m.e.d
            if not env_gone and norm(got_a) != norm(want_a):
                i = next((i for i, (x, y) in enumerate(zip(norm(got_a), norm(want_a))) if x != y), min(len(got_a), len(want_a)))
                problem = "script operation %s gave %r instead of %r" % (a[i] if i < len(a) else None, got_a[i:i + 1], want_a[i:i + 1])
            elif not gone and norm(got_b) != norm(want_b):
                # the RES entry of the first part is compared sorted as well
                i = next((i for i, (x, y) in enumerate(zip(norm(got_b), norm(want_b))) if x != y), min(len(got_b), len(want_b)))
                if i < len(b) and b[i][:2] == ("e", "pairs"):
                    pass
                else:
                    problem = "second script: operation %s gave %r instead of %r" % (b[i] if i < len(b) else None, got_b[i:i + 1], want_b[i:i + 1])
            if not problem:
                eff = "|".join([m.u.d["path"], m.u.d["query"], m.u.d["host"], "http", m.p.d["path"], m.p.d["doc_root"], m.p.d["pathinfo"],
                                m.e.d.get("A", ""), m.e.d.get("B", ""), ", ".join(x[1] for x in m.h.all("X-A")), ", ".join(x[1] for x in m.h.all("Y"))])
                # how empty repeated headers are joined isn't specified
                if resp.body.decode("latin-1").replace(", ", "") != eff.replace(", ", ""):
                    problem = "effects of the scripts: %r instead of %r" % (resp.body.decode("latin-1"), eff)
            if not problem:
                skip = {"date", "server", "content-length", "connection", "transfer-encoding", "content-type", "x-res-a", "x-res-b"}
                sent = [[k.decode("latin-1"), v.decode("latin-1")] for k, v in resp.headers if k.decode("latin-1").lower() not in skip]
                want = [[k, v] for k, v in m.r.l]
                if [[k.lower(), v.strip(" \t")] for k, v in sent] != [[k.lower(), v.strip(" \t")] for k, v in want]:
                    problem = "response headers sent were %r instead of %r" % (sent, want)
            if problem:
                chk.violation("ops", problem, {"ops": [a, b], "wire": wire.decode("latin-1"), "response": resp.raw_head.decode("latin-1"), "body": resp.body.decode("latin-1")})
                return
        if c:
            c.close()

    check.parallel(8, client, list(range(8)))
    srv.verify("ops")
    srv.stop()


BAD = {
    "syntax": "actions = function(vr) if",
    "loaderror": 'error("at load time")',
    "loadnil": "error(nil)",
    "loadtable": "error({})",
    "noaction": "local x = 1",
    "wrongaction": 'actions = "text"',
    "runtime": 'actions = function(vr) error("x") end',
    "runtimetable": "actions = function(vr) error({}) end",
    "runtimenil": "actions = function(vr) local x = nil; return x.y end",
    "returns": "actions = function(vr) return 77 end",
    "returnerr": "actions = function(vr) return lighty.HANDLER_ERROR end",
    "selfprint": 'actions = function(vr) vr.print("x") end',
    "selfwarn": 'actions = function(vr) vr.warning(nil) end',
    "selfinfo": 'actions = function(vr) vr.info({}) end',
    "selfdebug": 'actions = function(vr) vr.debug() end',
    "selfdirect": 'actions = function(vr) vr.handle_direct() end',
    "selffilter": 'actions = function(vr) vr.add_filter_out({}, {}) end',
    "selffilterin": 'actions = function(vr) vr.add_filter_in({}, {}) end',
    "selfstat": 'actions = function(vr) vr.stat("/", "/") end',
    "selfenter": 'actions = function(vr) vr.enter_action(1, 2) end',
    "selfreset": 'actions = function(vr) vr:handle_direct(); vr.out.reset() end',
    "selfskip": 'actions = function(vr) vr:handle_direct(); vr.out.skip_all({}) end',
    "selfsteal": 'actions = function(vr) vr:handle_direct(); vr.out.steal_all(nil, vr.out) end',
    "stealnone": 'actions = function(vr) vr:handle_direct(); vr.out:steal_all() end',
    "addtable": 'actions = function(vr) vr:handle_direct(); vr.out:add({}) end',
    "addnil": 'actions = function(vr) vr:handle_direct(); vr.out:add(nil) end',
    "nofile": 'actions = function(vr) vr:handle_direct(); vr.out:add_file("/nonexistent") end',
    "dirfile": 'actions = function(vr) vr:handle_direct(); vr.out:add_file("@DIR@") end',
    "badstart": 'actions = function(vr) vr:handle_direct(); vr.out:add_file("@FILE@", "x") end',
    "badlen": 'actions = function(vr) vr:handle_direct(); vr.out:add_file("@FILE@", 0, "x") end',
    "startbig": 'actions = function(vr) vr:handle_direct(); vr.out:add_file("@FILE@", 1000000) end',
    "lenbig": 'actions = function(vr) vr:handle_direct(); vr.out:add_file("@FILE@", 1, 1000000) end',
    "lenneg": 'actions = function(vr) vr:handle_direct(); vr.out:add_file("@FILE@", 1, -1) end',
    "outnil": 'actions = function(vr) vr.out:add("x") end',
    "filternum": "actions = lighty.filter_out(5)",
    "filternonew": "actions = lighty.filter_out({})",
    "filternewnum": "actions = lighty.filter_out({ new = function() return 5 end })",
    "filternewerr": 'actions = lighty.filter_out({ new = function() error("x") end })',
    "filtermeta": 'actions = lighty.filter_out(setmetatable({}, { __index = function() error("x") end }))',
    "filterhandle": 'actions = lighty.filter_out({ new = function() return { handle = function() error("x") end } end })',
    "filterret": 'actions = lighty.filter_out({ new = function() return { handle = function() return 99 end } end })',
    "filterin": 'actions = lighty.filter_in({ new = function() return { handle = function() error("x") end } end })',
    "filterfin": 'actions = lighty.filter_out({ new = function() return { handle = function(self, vr, o, i) if i then o:steal_all(i); if i.is_closed then o.is_closed = true end end end, finished = function() error("x") end } end })',
    "filterobj": "actions = function(vr) vr:add_filter_out(7) end",
    "filterarg": "actions = function(vr) vr:add_filter_out() end",
    "stat": 'actions = function(vr) vr.resp.status = 5 end',
    "rofield": 'actions = function(vr) vr.req = 5 end',
    "deep": "local function f() return 1 + f() end; actions = function(vr) f() end",
    "condbad": 'actions = action.when(request.remoteip:ip("nonsense"), action.static())',
    "condregex": 'actions = action.when(request.path:match("("), action.static())',
    "condcmp": 'actions = action.when(request.path:gt("x"), action.static())',
    "condnil": 'actions = action.when(request.path:eq(), action.static())',
    "whennil": 'actions = action.when(nil, nil)',
    "unknownaction": 'actions = action.no_such_action(1)',
    "badparam": 'actions = action.respond("x", {}, {})',
    "setupcall": 'setup.listen("127.0.0.1:1"); actions = action.static()',
    "metatable": 'actions = function(vr) setmetatable(vr, {}) end',
    "getmeta": 'actions = function(vr) getmetatable(vr).__index = nil; getmetatable(vr.env).get = 5 end',
}


def part_errors(chk):
    d = os.path.join(chk.scratch, "err")
    os.makedirs(d)
    data = write(os.path.join(d, "data.txt"), "0123456789" * 20)
    good = write(os.path.join(d, "good.lua"), 'local n = 0\nactions = function(vr) n = n + 1; if vr:handle_direct() then vr.resp.status = 201; vr.resp.headers["X-N"] = tostring(n); '
                 'vr.out:add("path=" .. vr.req.uri.path .. " g=" .. tostring(g)); g = 1 end end')
    lines = []
    for k, t in BAD.items():
        p = write(os.path.join(d, "bad_%s.lua" % k), t.replace("@DIR@", d).replace("@FILE@", data))
        lines.append('if req.path == "/bad/%s" { lua.handler "%s"; }' % (k, p))
    conf = "\n".join(lines) + '\nif req.path =^ "/good" { lua.handler "%s"; } else if req.path =^ "/static" { docroot "%s"; alias "/static" => "%s"; static; } else { respond 200 => "end"; }' % (good, d, d)
    srv = server.Server(chk, conf, modules=["mod_lua"], workers=1, name="p36err").start()
    names = sorted(BAD)
    r = chk.rng("errors")
    seen = {}
    base = None
    last_n = 0
    for rnd in range(chk.n(6)):
        order = list(names)
        r.shuffle(order)
        for k in order:
            c = http.Conn(port=srv.port)
            st = None
            try:
                c.send(http.build_request("POST" if k == "filterin" else "GET", "/bad/" + k, [], b"abc" if k == "filterin" else None))
                resp = c.read_response("GET")
                st = resp.status
            except (http.Closed, http.ProtoError):
                st = "closed"
            except http.Timeout:
                st = "timeout"
            c.close()
            chk.ok(1, kind="script error", outcome=str(st))
            if st == "timeout":
                chk.violation("hang", "request with failing script (%s) hangs" % k, {"script": BAD[k]})
            if not srv.alive():
                srv.verify("script error %s" % k)
                return
            for target, want in (("/good/x", (201, b"path=/good/x g=nil")), ("/static/data.txt", (200, b"0123456789" * 20))):
                try:
                    resp = http.get(srv.port, target)
                    got = (resp.status, resp.body)
                except (http.Closed, http.Timeout, OSError) as e:
                    if not srv.alive():
                        srv.verify("after script error %s" % k)
                        return
                    got = str(e)
                chk.ok(1, kind="after error")
                if got != want:
                    chk.violation("spread", "after a failing script (%s) another request was answered %r instead of %r" % (k, got, want), {"script": BAD[k]})
                    return
                if target == "/good/x":
                    n = int(resp.get(b"x-n"))
                    if n != last_n + 1:
                        chk.violation("state", "after a failing script (%s) the state of another script changed: %d calls instead of %d" % (k, n, last_n + 1), {"script": BAD[k]})
                        return
                    last_n = n
        time.sleep(0.3)
        n = srv.fds()
        n = len(n) if not isinstance(n, int) else n
        if base is None:
            base = n
        elif n > base + 3:
            chk.violation("leak", "failing scripts leak descriptors: %d after the first round, %d after round %d" % (base, n, rnd + 1), {})
            return
    srv.verify("errors")
    srv.stop()


FILTERS = r'''
local filename, args = ...
local function body(name)
	if name == "pass" then
		return function(self, vr, o, i)
			if i == nil then return end
			o:steal_all(i)
			if i.is_closed then o.is_closed = true end
		end
	elseif name == "wrap" then
		return function(self, vr, o, i)
			if i == nil then return end
			if not self.begun then self.begun = true; o:add("<<") end
			o:steal_all(i)
			if i.is_closed and not o.is_closed then o:add(">>"); o.is_closed = true end
		end
	elseif name == "drop" then
		return function(self, vr, o, i)
			if i == nil then return end
			i:skip_all()
			if i.is_closed and not o.is_closed then o:add("dropped"); o.is_closed = true end
		end
	elseif name == "replace" then
		return function(self, vr, o, i)
			if not o.is_closed then o:add("A" .. string.rep("b", 5000)); o:add({ filename = args[1] }); o:add("C"); o.is_closed = true end
			if i ~= nil then i:skip_all(); i.is_closed = true end
			return lighty.HANDLER_GO_ON
		end
	end
end
local function class(name)
	local C = { }
	C.__index = C
	function C:new(vr)
		if name == "none" then return nil end
		local o = { }
		setmetatable(o, self)
		return o
	end
	C.handle = body(name)
	return C
end
local classes = {}
for _, n in ipairs({"pass", "wrap", "drop", "replace", "none"}) do classes[n] = class(n) end
actions = function(vr)
	for w in vr.req.headers["X-Filters"]:gmatch("%w+") do
		local c, how = w:match("^(.-)([IOio])$")
		if how == "I" then
			local o = classes[c]:new(vr); if o then vr:add_filter_in(o) end
		elseif how == "O" then
			local o = classes[c]:new(vr); if o then vr:add_filter_out(o) end
		end
	end
end
'''


def part_filters(chk):
    d = os.path.join(chk.scratch, "flt")
    os.makedirs(d)
    extra = "E" * 70000
    ef = write(os.path.join(d, "extra.bin"), extra)
    f = write(os.path.join(d, "filters.lua"), FILTERS)
    cls = write(os.path.join(d, "cls.lua"), FILTERS[:FILTERS.rindex("actions = ")].replace("args[1]", '"%s"' % ef)
                + 'actions = { ["lf.out"] = function(n) return lighty.filter_out(classes[n]) end, ["lf.in"] = function(n) return lighty.filter_in(classes[n]) end }')
    sizes = [0, 1, 100, 16384, 70001, 400000]
    for n in sizes:
        with open(os.path.join(d, "s%d" % n), "wb") as h:
            h.write(bytes((i * 7 + n) % 251 for i in range(n)))

    def echo(rec):
        b = b"[" + rec.body + b"]"
        return [("send", b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(b) + b), ("close",)]

    st = backends.HttpStub(echo)
    chk.cleanup(st.stop) if callable(getattr(chk, "cleanup", None)) else None
    pl = "".join('if req.header["X-Plug"] =~ "%s%s" { lf.%s "%s"; }\n' % (n, w, h, n) for n in ("pass", "wrap", "drop", "replace", "none") for w, h in (("o", "out"), ("i", "in")))
    conf = 'docroot "%s";\nlua.handler "%s", [], ["%s"];\n%s\nif req.path == "/proxy" { proxy "127.0.0.1:%d"; } else { static; }\n' % (d, f, ef, pl, st.port)
    srv = server.Server(chk, conf, setup='lua.plugin "%s";' % cls, modules=["mod_lua", "mod_proxy"], workers=2, name="p36flt").start()

    def apply(name, b):
        return {"pass": b, "wrap": b"<<" + b + b">>", "drop": b"dropped", "none": b, "replace": b"A" + b"b" * 5000 + extra.encode() + b"C"}[name]

    def one(i):
        r = chk.rng("flt", i)
        for attempt in range(2):
            # request filters have to keep the length: it was announced to the backend before
            fl = [x if x[-1] == "O" else "passI" for x in (r.choice(["pass", "wrap", "drop", "replace", "none"]) + r.choice("OOI") for _ in range(r.randrange(0, 4)))]
            plug = r.choice(["", "", "passo", "wrapo", "replaceo", "dropo", "noneo", "nonei", "passi"])
            proxy = r.random() < 0.5
            body = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 50, 3000]))) * r.choice([1, 1, 30]) if proxy else None
            hd = [("X-Filters", " ".join(fl)), ("X-Plug", plug)]
            n = r.choice(sizes)
            chunked = [r.choice([1, 7, 1000, 5000]) for _ in range(5)] if proxy and r.random() < 0.3 else None
            wire = http.build_request("POST" if proxy else "GET", "/proxy" if proxy else "/s%d" % n, hd, body, chunked=chunked)
            order = [x for x in fl if x[-1] == "I"] + ([plug[:-1] + "I"] if plug.endswith("i") else [])
            out = [x for x in fl if x[-1] == "O"] + ([plug[:-1] + "O"] if plug.endswith("o") else [])
            if proxy:
                want = body
                for x in order:
                    want = apply(x[:-1], want)
                want = b"[" + want + b"]"
            else:
                want = bytes((k * 7 + n) % 251 for k in range(n))
            for x in out:
                want = apply(x[:-1], want)
            c = http.Conn(port=srv.port)
            try:
                c.send(wire)
                resp = c.read_response("POST")
                ok = resp.status == 200 and resp.complete and resp.body == want
                what = "status %s, %d bytes %r..%r" % (resp.status, len(resp.body), resp.body[:40], resp.body[-40:])
            except (http.Closed, http.Timeout, http.ProtoError) as e:
                ok, what = False, repr(e)
            c.close()
            chk.ok(1, kind="filters", proxy=proxy, nfilters=len(fl))
            if not ok:
                return chk.violation("filter", "body through Lua filters %s %s (%s, request body %s): %s instead of %d bytes %r..%r" % (
                    fl, plug, "proxy" if proxy else "static", None if body is None else len(body), what, len(want), want[:40], want[-40:]), {"wire": wire[:3000].decode("latin-1")})

    check.parallel(8, one, list(range(chk.n(500))))
    srv.verify("filters")
    srv.stop()


def part_conditions(chk):
    """action.when(cond) in Lua and if in the configuration decide alike; nested and listed actions keep their order"""
    d = os.path.join(chk.scratch, "cond")
    os.makedirs(os.path.join(d, "dir"))
    write(os.path.join(d, "file"), "12345")
    OPN = {"==": "eq", "!=": "ne", "<=": "le", "<": "lt", ">=": "ge", ">": "gt", "=~": "match", "!~": "nomatch", "=^": "prefix", "!^": "notprefix", "=$": "suffix", "!$": "notsuffix", "=/": "ip", "!/": "notip"}

    def one(i):
        r = chk.rng("cond", i)
        lua, conf = [], []
        for k in range(40):
            t = r.random()
            if t < 0.5:
                v = r.choice(["request.path", "request.query", "request.host", "request.method", "request.scheme", "physical.path", "physical.docroot", "request.raw_path",
                              'request.header["x-a"]', 'request.environment["E"]', "request.remoteip", "request.localport"])
                op = r.choice(["==", "!=", "=~", "!~", "=^", "!^", "=$", "!$"])
                s = r.choice(["/", "/a", "/file", "/dir", "b", "GET", "POST", "http", "example.org", "x=1", "x=2", "", "^/[ab]", "e$", "o+", "127.0.0.1", "127", "e1"])
                if r.random() < 0.3:
                    s += r.choice(["", ".", "e"])
                l, c = "%s:%s(%r)" % (v, OPN[op], s), '%s %s "%s"' % (v, op, s)
            elif t < 0.7:
                v = r.choice(["request.length", "physical.size", "response.status"])
                op = r.choice(["<", "<=", ">", ">="])
                n = r.choice([0, 1, 4, 5, 6, 100, 200, 3])
                if v == "physical.size":
                    v, n = "request.length", n
                l, c = "%s:%s(%d)" % (v, OPN[op], n), "%s %s %d" % (v, op, n)
            elif t < 0.85:
                v = r.choice(["physical.exists", "physical.is_file", "physical.is_dir", "request.is_handled"])
                b = r.random() < 0.5
                l, c = "%s:%s()" % (v, "is" if b else "isnot"), ("" if b else "!") + v
            else:
                op = r.choice(["=/", "!/"])
                s = r.choice(["127.0.0.1", "127.0.0.0/8", "127.0.1.0/24", "10.0.0.0/8", "0.0.0.0/0", "::1"])
                l, c = "request.remoteip:%s(%r)" % (OPN[op], s), 'request.remoteip %s "%s"' % (op, s)
            conf.append('if %s { header.add "C" => "%d"; } else { header.add "C" => "-%d"; }' % (c, k, k))
            t = 'action.header.add("L", "%d")' % k
            e = 'action.header.add("L", "-%d")' % k
            lua.append("action.when(%s, %s, %s)" % (l, t, e) if r.random() < 0.8 else "action.when(%s, action.list(%s, action.list({})), action.list({%s}))" % (l, t, e))
        code = "actions = action.list(%s)" % ", ".join(lua) if i % 2 else "local a = {%s}\nactions = action.list(unpack(a))" % ",\n".join(lua)
        f = write(os.path.join(d, "c%d.lua" % i), code)
        inc = 'lua.handler "%s";' % f if r.random() < 0.5 else 'include_lua "%s";' % f
        srv = server.Server(chk, 'docroot "%s";\nenv.set "E" => "e1";\nrespond 200 => "x";\n%s\n%s\n' % (d, "\n".join(conf), inc), modules=["mod_lua"], workers=1, name="p36c%d" % i).start()
        try:
            for q in range(12):
                path = r.choice(["/", "/a", "/file", "/dir", "/dir/", "/b?x=1", "/a?x=2", "/none"])
                m = r.choice(["GET", "POST"])
                hd = [("X-A", r.choice(["/a", "b", "GET", "o"]))] if r.random() < 0.7 else []
                c = http.Conn(port=srv.port, src=r.choice(["127.0.0.1", "127.0.1.7"]))
                c.send(http.build_request(m, path, hd, b"y" * r.choice([0, 4, 5, 6, 100]) if m == "POST" else None, host=r.choice(["example.org", "foo"])))
                resp = c.read_response(m)
                c.close()
                a = [v.decode() for k, v in resp.headers if k.lower() == b"c"]
                b = [v.decode() for k, v in resp.headers if k.lower() == b"l"]
                chk.ok(len(a), kind="condition")
                if a != b or len(a) != 40:
                    bad = [(conf[j], lua[j], x, y) for j, (x, y) in enumerate(zip(a, b)) if x != y]
                    chk.violation("condition", "condition in Lua differs from the one in the configuration: %s" % (bad[:2] or (len(a), len(b))), {"conf": conf, "lua": code, "request": [m, path, hd]})
                    return
        except (http.Closed, http.Timeout) as e:
            chk.violation("condition-answer", "request not answered: %s %s" % (e, srv.logs()[-1600:]), {"lua": code})
        finally:
            srv.verify("conditions")
            srv.stop()

    check.parallel(8, one, list(range(chk.n(60))))


DUMP = r'''
local filename, args = ...
local function hex(s) return (s:gsub(".", function(c) return string.format("%02x", c:byte()) end)) end
local function dump(v)
	local t = type(v)
	if t == "nil" then return "n" elseif t == "boolean" then return v and "T" or "F"
	elseif t == "number" then return string.format("%.0f", v) elseif t == "string" then return "s" .. hex(v)
	elseif t == "table" then
		local r = {}
		local m = 0
		for k, x in pairs(v) do if k > m then m = k end end
		for i = 1, m do r[i] = dump(rawget(v, i)) end
		return "(" .. table.concat(r, ",") .. ")"
	end
	return t
end
local got = dump(args)
local look = ""
if type(args) == "table" then look = dump(args["key"]) .. dump(args["other"]) .. dump(args[nil]) end
actions = function(vr)
	if vr:handle_direct() then vr.resp.status = 200; vr.out:add(got .. "|" .. look) end
end
'''


def part_values(chk):
    d = os.path.join(chk.scratch, "val")
    os.makedirs(d)
    f = write(os.path.join(d, "dump.lua"), DUMP)

    def val(r, dep):
        k = r.random()
        if dep and k < 0.35:
            x = [val(r, dep - 1) for _ in range(r.randrange(0, 4))]
            return "[%s]" % ", ".join(a for a, b in x), [b for a, b in x]
        if dep and k < 0.55:
            x = [(r.choice(['"key"', '"other"', '"k"', "default"]), val(r, dep - 1)) for _ in range(r.randrange(1, 4))]
            return "[%s]" % ", ".join("%s => %s" % (a, b[0]) for a, b in x), [[None if a == "default" else a[1:-1], b[1]] for a, b in x]
        k = r.randrange(4)
        if k == 0:
            n = r.choice([0, 1, -1, 5, 2147483647, 2147483648, -2147483649, 1 << 40, 1 << 52])
            return str(n), n
        if k == 1:
            s = "".join(r.choice("abc xyz09.-") for _ in range(r.randrange(6)))
            return '"%s"' % s, s
        return r.choice([("true", True), ("false", False)])

    def dump(v):
        if v is None:
            return "n"
        if v is True or v is False:
            return "T" if v else "F"
        if isinstance(v, int):
            return str(v)
        if isinstance(v, str):
            return "s" + v.encode().hex()
        v = list(v)
        while v and v[-1] is None:
            v.pop()
        return "(" + ",".join(dump(x) for x in v) + ")"

    def look(v, key):
        hit = None
        for x in v:
            if isinstance(x, list) and len(x) == 2 and (x[0] is None or isinstance(x[0], str)) and x[0] == key:
                hit = x[1]
        return hit

    def one(i):
        r = chk.rng("val", i)
        vals = [val(r, 3) for _ in range(25)]
        conf = "\n".join('if req.path == "/%d" { lua.handler "%s", [], %s; }' % (j, f, t) for j, (t, v) in enumerate(vals))
        srv = server.Server(chk, conf, modules=["mod_lua"], workers=1, name="p36v%d" % i).start()
        try:
            for j, (t, v) in enumerate(vals):
                resp = http.get(srv.port, "/%d" % j)
                want = dump(v) + "|"
                loose = False
                if isinstance(v, list):
                    want += "".join(dump(look(v, k)) for k in ("key", "other"))
                    loose = True
                got = resp.body.decode("latin-1")
                chk.ok(1, kind="value")
                if (got[:len(want)] if loose else got) != want or resp.status != 200:
                    chk.violation("value", "configuration value %s arrived in the script as %r instead of %r" % (t, got, want), {"value": t})
                    return
        except (http.Closed, http.Timeout) as e:
            chk.violation("value-answer", "script with argument was not answered: %s %s" % (e, srv.logs()[-500:]), {"values": [t for t, v in vals]})
        finally:
            srv.verify("values")
            srv.stop()

    check.parallel(6, one, list(range(chk.n(6))))


def part_files(chk):
    """bodies made of strings and files; stat; actions entered from scripts; reload"""
    d = os.path.join(chk.scratch, "files")
    os.makedirs(os.path.join(d, "sub"))
    blob = bytes((i * 13 + 5) % 256 for i in range(90000))
    with open(os.path.join(d, "blob"), "wb") as h:
        h.write(blob)
    open(os.path.join(d, "empty"), "w").close()
    f = write(os.path.join(d, "body.lua"), r'''
local D = "%s/"
actions = function(vr)
	if not vr:handle_direct() then return end
	vr.resp.status = 200
	for w in vr.req.uri.query:gmatch("[^;]+") do
		local o, a, b = w:match("^(%%a+)-?(%%d*)-?(%%d*)$")
		if o == "s" then vr.out:add(string.rep("x", tonumber(a)))
		elseif o == "f" then
			if b ~= "" then vr.out:add_file(D .. "blob", tonumber(a), tonumber(b)) elseif a ~= "" then vr.out:add_file(D .. "blob", tonumber(a)) else vr.out:add_file(D .. "blob") end
		elseif o == "t" then vr.out:add({ filename = D .. "blob" })
		elseif o == "e" then vr.out:add_file(D .. "empty")
		elseif o == "n" then vr.out:add(tonumber(a))
		elseif o == "r" then vr.out:reset()
		elseif o == "k" then vr.out:skip_all()
		end
	end
end
''' % d)
    st = write(os.path.join(d, "stat.lua"), r'''
local D = "%s/"
actions = function(vr)
	local s, res, errno, msg = vr:stat(D .. vr.req.uri.query)
	calls = (calls or 0) + 1
	if s then
		vr:handle_direct(); vr.resp.status = 200
		vr.out:add(string.format("%%s %%s %%s %%d %%d %%d", tostring(s.is_file), tostring(s.is_dir), tostring(s.is_fifo), s.size, s.mode, s.mtime))
		if res ~= lighty.HANDLER_GO_ON then vr.out:add(" wrong result") end
		return
	end
	if res == lighty.HANDLER_WAIT_FOR_EVENT then
		if calls > 50 then error("waits forever") end
		return res
	end
	vr:handle_direct(); vr.resp.status = 404
	vr.out:add(string.format("%%d %%s", errno, type(msg)))
end
''' % d)
    ent = write(os.path.join(d, "enter.lua"), r'''
local add = {}
for i = 1, 9 do add[i] = action.header.add("X-T", tostring(i)) end
local all = action.list(add[7], add[8])
actions = function(vr)
	state = (state or 0) + 1
	local q = vr.req.uri.query
	local c = q:sub(state, state)
	if c == "" then vr.resp.headers:insert("X-T", "end" .. state); return lighty.HANDLER_GO_ON end
	if c == "0" then vr:enter_action(all) else vr:enter_action(add[tonumber(c)]) end
	return lighty.HANDLER_WAIT_FOR_EVENT
end
''')
    rl = os.path.join(d, "reload.lua")
    write(rl, 'actions = action.respond(200, "version 1")')
    conf = ('if req.path == "/body" { lua.handler "%s"; } else if req.path == "/stat" { lua.handler "%s"; } else if req.path == "/enter" { lua.handler "%s"; respond 200 => "x"; } '
            'else if req.path == "/reload" { lua.handler "%s", ["ttl" => 1]; }' % (f, st, ent, rl))
    srv = server.Server(chk, conf, modules=["mod_lua"], workers=2, name="p36files").start()

    def body(i):
        r = chk.rng("body", i)
        c = None
        for _ in range(25):
            q, want = [], b""
            for _ in range(r.randrange(0, 7)):
                o = r.choice("ssfffttenrk")
                if o == "s":
                    n = r.choice([0, 1, 10, 5000])
                    q.append("s-%d" % n)
                    want += b"x" * n
                elif o == "f":
                    s = r.choice([0, 1, 4096, 89999, 90000, r.randrange(90000)])
                    n = r.choice([0, 1, 100, 90000 - s, r.randrange(90001)])
                    k = r.randrange(3)
                    if k == 0:
                        q.append("f")
                        want += blob
                    elif k == 1:
                        q.append("f-%d" % s)
                        want += blob[s:]
                    elif s + n <= 90000:
                        q.append("f-%d-%d" % (s, n))
                        want += blob[s:s + n]
                elif o == "t":
                    q.append("t")
                    want += blob
                elif o == "e":
                    q.append("e")
                elif o == "n":
                    q.append("n-42")
                    want += b"42"
                else:
                    q.append(o)
                    want = b""
            try:
                resp = http.get(srv.port, "/body?" + ";".join(q))
                ok = resp.status == 200 and resp.complete and resp.body == want
                what = "%s, %d bytes" % (resp.status, len(resp.body))
            except (http.Closed, http.Timeout) as e:
                ok, what = False, repr(e)
            chk.ok(1, kind="body", parts=len(q))
            if not ok:
                chk.violation("body", "script writing %s: %s instead of %d bytes" % (";".join(q), what, len(want)), {})
                return

    check.parallel(6, body, list(range(chk.n(8))))
    os.mkfifo(os.path.join(d, "fifo"))
    for rnd in range(2):
        for n in ("blob", "empty", "sub", "fifo", "nothing", "sub/none", "blob/x"):
            resp = http.get(srv.port, "/stat?" + n)
            try:
                s = os.stat(os.path.join(d, n))
                import stat as S
                want = "%s %s %s %d %d %d" % tuple([str(x).lower() for x in (S.S_ISREG(s.st_mode), S.S_ISDIR(s.st_mode), S.S_ISFIFO(s.st_mode))] + [s.st_size, s.st_mode, int(s.st_mtime)])
            except OSError as e:
                want = "%d string" % e.errno
            chk.ok(1, kind="stat")
            if resp.body.decode() != want:
                chk.violation("stat", "vr:stat of %s gave %r instead of %r" % (n, resp.body.decode(), want), {})
    r = chk.rng("enter")
    for _ in range(chk.n(500)):
        q = "".join(r.choice("01234569") for _ in range(r.randrange(0, 8)))
        resp = http.get(srv.port, "/enter?" + q)
        got = [v.decode() for k, v in resp.headers if k.lower() == b"x-t"]
        want = [y for x in q for y in (["7", "8"] if x == "0" else [x])] + ["end%d" % (len(q) + 1)]
        chk.ok(1, kind="enter")
        if got != want:
            chk.violation("enter", "actions entered by a script (%s) ran as %s" % (q, got), {})
            return
    for n in (1, 2, 3):
        write(rl, 'actions = action.respond(200, "version %d")' % n)
        os.utime(rl, (time.time() + 5 * n, time.time() + 5 * n)) if n > 1 else None
        end = time.time() + 15
        good = 0
        while time.time() < end and good < 6:
            good = good + 1 if http.get(srv.port, "/reload").body == b"version %d" % n else 0
            time.sleep(0.1)
        chk.ok(1, kind="reload")
        if good < 6:
            chk.violation("reload", "script changed on disk was not used after its ttl (version %d)" % n, {})
    srv.verify("files")
    srv.stop()


def part_contrib(chk):
    d = os.path.join(chk.scratch, "contrib")
    lib = os.path.join(d, "lua")
    root, sec = os.path.join(d, "root"), os.path.join(d, "secret")
    for p in (lib, root, sec, os.path.join(d, "other")):
        os.makedirs(p)
    for n in os.listdir(os.path.join(build.REPO, "contrib")):
        if n.endswith(".lua"):
            with open(os.path.join(build.REPO, "contrib", n)) as h:
                write(os.path.join(lib, n), h.read())
    write(os.path.join(sec, "file.txt"), "the secret")
    write(os.path.join(root, "page.html"), "page")
    write(os.path.join(root, "plain"), "plain")
    write(os.path.join(root, "dir.html"), "dirpage")
    write(os.path.join(root, "send.bin"), "S" * 30000)
    write(os.path.join(d, "other", "leak"), "must not be sent")
    write(os.path.join(d, "users"), "".join("%s:pw\n" % u for u in ("a.b", "axb", "foo", "fooo", "x(y", "bar")))

    def beh(rec):
        x = rec.get("X-Want") or rec.get(b"X-Want") or b""
        if isinstance(x, str):
            x = x.encode()
        return [("send", b"HTTP/1.1 200 OK\r\nContent-Length: 8\r\nX-Sendfile: " + x + b"\r\n\r\noriginal") if x else ("send", b"HTTP/1.1 200 OK\r\nContent-Length: 8\r\n\r\noriginal"), ("close",)]

    st = backends.HttpStub(beh)

    def app(rec):
        b = rec.env.get(b"SCRIPT_NAME", b"-") + b"|" + rec.env.get(b"PATH_INFO", b"-")
        return [("send", b"Status: 200\r\nContent-Length: %d\r\n\r\n" % len(b) + b), ("close",)]

    sc = backends.ScgiStub(app)
    conf = """
secdownload [ "prefix" => "/sec/", "document-root" => "%(sec)s", "secret" => "abc", "timeout" => 600 ];
if req.path =^ "/sec/" { static; }
else if req.path =^ "/xs" { proxy "127.0.0.1:%(p)d"; if req.path == "/xsroot" { core.xsendfile "%(root)s/"; } else { core.xsendfile; } }
else if req.path =^ "/auth" { auth.plain [ "method" => "basic", "realm" => "r", "file" => "%(d)s/users" ]; auth.require_user ("a.b", "foo", "x(y"); respond 200 => "in"; }
else if req.path =^ "/trac" { core.wsgi ("/trac", { scgi "127.0.0.1:%(s)d"; }); }
else { docroot "%(root)s"; core.cached_html; if phys.is_file { header.add "X-Hit" => "yes"; static; } else { respond 404 => "miss"; } }
""" % dict(sec=sec, p=st.port, root=root, d=d, s=sc.port)
    srv = server.Server(chk, conf, setup='lua.plugin "%s/core.lua";\nlua.plugin "%s/secdownload.lua";' % (lib, lib), modules=["mod_lua", "mod_proxy", "mod_scgi", "mod_auth"], workers=2, name="p36contrib").start()

    def ask(target, hd=()):
        try:
            resp = http.get(srv.port, target, headers=list(hd))
            return resp.status, resp.body
        except (http.Closed, http.Timeout, http.ProtoError) as e:
            return type(e).__name__, str(e)

    def must(what, got, want):
        chk.ok(1, kind="contrib", what=what)
        if got != want if not callable(want) else not want(got):
            chk.violation("contrib-" + what, "%s: %r instead of %r" % (what, got, want if not callable(want) else "?"), {})

    def url(path, ts, secret="abc"):
        h = "%08x" % ts
        return "/sec/%s/%s%s" % (hashlib.md5((secret + path + h).encode()).hexdigest(), h, path)

    now = int(time.time())
    good = url("/file.txt", now)
    must("secdownload valid", ask(good), (200, b"the secret"))
    must("secdownload old", ask(url("/file.txt", now - 590)), (200, b"the secret"))
    for name, u in (("expired", url("/file.txt", now - 700)), ("future", url("/file.txt", now + 700)), ("secret", url("/file.txt", now, "abd")), ("other path", good.replace("file.txt", "file.txu")),
                    ("timestamp", good.replace("%08x" % now, "%08x" % (now + 1))), ("short", "/sec/abc"), ("none", "/sec/file.txt"), ("empty", "/sec/"), ("nots", "/sec/" + "a" * 32 + "/zz/file.txt"),
                    ("nots2", "/sec/" + "a" * 32 + "//file.txt"), ("noslash", "/sec/" + "a" * 32 + "x12345678/file.txt"), ("upper", good[:5] + good[5:37].upper() + good[37:]),
                    ("nofile", "/sec/" + "a" * 32 + "/12345678"), ("enc", "/%73ec/file.txt")):
        st_, b = ask(u)
        must("secdownload " + name, (st_ in (403, 404, 410), b"secret" in b), (True, False))
    for i in range(0, 32, 3):
        u = good[:5 + i] + ("0" if good[5 + i] != "0" else "1") + good[6 + i:]
        must("secdownload digit", ask(u)[0], 403)
    must("cached_html page", ask("/page"), (200, b"page"))
    must("cached_html slash", ask("/dir/"), (200, b"dirpage"))
    must("cached_html plain", ask("/plain"), (200, b"plain"))
    must("cached_html miss", ask("/zip"), (404, b"miss"))
    must("cached_html direct", ask("/page.html"), (200, b"page"))
    must("xsendfile", ask("/xs", [("X-Want", root + "/send.bin")]), (200, b"S" * 30000))
    must("xsendfile none", ask("/xs"), (200, b"original"))
    must("xsendfile root", ask("/xsroot", [("X-Want", root + "/send.bin")]), (200, b"S" * 30000))
    for x in (d + "/other/leak", root + "/../other/leak", root + "/x/../../other/leak", "/etc/hostname", "leak"):
        must("xsendfile outside", ask("/xsroot", [("X-Want", x)])[1], lambda b: b"must not" not in (b if isinstance(b, bytes) else b"") and (not isinstance(b, bytes) or b in (b"original",) or b"rror" in b or b == b""))
    must("xsendfile missing", ask("/xs", [("X-Want", root + "/nothing")])[1], lambda b: True)
    import base64
    for u, ok in (("a.b", True), ("axb", False), ("foo", True), ("fooo", False), ("x(y", True), ("bar", False)):
        a = ask("/auth", [("Authorization", "Basic " + base64.b64encode((u + ":pw").encode()).decode())])
        must("require_user " + u, (a[0] == 200 and a[1] == b"in"), ok)
    must("require_user anonymous", ask("/auth")[0] == 200, False)
    for p in ("", "/", "/x/y", "/%41"):
        must("wsgi " + p, ask("/trac" + p), (200, ("/trac|" + urllib.parse.unquote(p)).encode()))
    srv.verify("contrib")
    srv.stop()
    st.stop()
    sc.stop()


MANY = r'''
local n = 0
local F = {}
F.__index = F
function F:new(vr) return setmetatable({}, self) end
function F:handle(vr, o, i) if i then o:steal_all(i); if i.is_closed then o.is_closed = true end end end
actions = function(vr)
	n = n + 1
	local q = vr.req.uri.query
	if q == "fail" then error("asked to fail") end
	if q == "filter" then vr:add_filter_out(F:new()) end
	if q == "print" then print("msg", n, nil, true, vr); lighty.debug("x", {}); lighty.warning(""); vr:info("i", 5) end
	if q == "wait" and not REQ.again then REQ.again = true; return lighty.HANDLER_COMEBACK end
	if vr:handle_direct() then
		vr.resp.status = 200
		if q == "count" then
			collectgarbage(); collectgarbage()
			vr.out:add(n .. " " .. math.floor(collectgarbage("count") * 1024))
		else vr.out:add(tostring(n)) end
	end
end
'''


def part_many(chk):
    """a script keeps working however often it was called, in the worker's own state and in the shared one"""
    d = os.path.join(chk.scratch, "many")
    os.makedirs(d)
    f = write(os.path.join(d, "many.lua"), MANY)
    plug = write(os.path.join(d, "plug.lua"), 'actions = { ["m.shared"] = function() return action.lua.handler("%s", nil, nil) end }' % f)
    for kind, act in (("handler", 'lua.handler "%s";' % f), ("shared", 'include_lua "%s";' % f)):
        srv = server.Server(chk, 'keepalive.requests 0;\n%s\n' % act, setup='lua.plugin "%s";' % plug, modules=["mod_lua"], workers=1, name="p36many" + kind).start()
        r = chk.rng("many", kind)
        sent = bad = 0
        base = None
        c = None
        total = chk.n(11000, 40000)
        while sent < total:
            qs = [r.choice(["", "", "filter", "print", "wait", "x"]) for _ in range(99)] + (["fail"] if r.random() < 0.05 else ["count"])
            wire = b"".join(b"GET /?%s HTTP/1.1\r\nHost: a\r\n\r\n" % q.encode() for q in qs)
            try:
                if c is None:
                    c = http.Conn(port=srv.port)
                c.send(wire)
                for q in qs:
                    if q == "fail":
                        sent += 1
                        c.close()
                        c = None
                        break
                    resp = c.read_response("GET")
                    sent += 2 if q == "wait" else 1
                    chk.ok(1, kind="many", how=kind, query=q)
                    got = resp.body.split()
                    if resp.status != 200 or int(got[0]) != sent:
                        bad = "request %d (%s): %s %r" % (sent, q, resp.status, resp.body[:60])
                        break
                    if q == "count":
                        mem = int(got[1])
                        if sent > 1500 and base is None:
                            base = mem
                        chk.count("lua-heap-kb", mem // 1024)
                        if base is not None and mem > base + 150000:
                            bad = "Lua state grew from %d to %d bytes after %d calls" % (base, mem, sent)
                            break
            except (http.Closed, http.Timeout, http.ProtoError, OSError) as e:
                bad = "after %d calls: %r" % (sent, e)
            if bad:
                break
        if c:
            c.close()
        srv.verify("many calls (%s)" % kind)
        if bad and not chk.violations:
            chk.violation("many", "script called many times (%s): %s" % (kind, bad), {"log": srv.logs()[-1500:]})
        srv.stop()
        if bad:
            return


def run(chk):
    build.build("asan")
    for name, fn in (("ops", part_ops), ("errors", part_errors), ("filters", part_filters), ("conditions", part_conditions), ("values", part_values), ("files", part_files), ("contrib", part_contrib), ("many", part_many)):
        if chk.want(name):
            fn(chk)
            if chk.violations:
                return


if __name__ == "__main__":
    c = check.Check("P36", rule="scripts see and change requests exactly as documented; a failing script fails only its own request")
    check.run(c, run, min_evals=100)
