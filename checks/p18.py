"""P18: the request path is percent-decoded and normalised exactly once; equivalent spellings get the same decision."""
import os

from vf import build, bwork, check, http, server, urlref

SEP = b"\x1f"


def rand_target(r):
    al = r.choice([b"ab/.%2eEfF", b"ab/.", b"a%/.", b"abcXYZ09-._~!$&'()*+,;=:@<>\"{}|\\^[]`/%?#", bytes(range(33, 127))])
    n = r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40, 200 if r.random() < 0.3 else 6])
    out = bytearray(b"/")
    toks = [b"..", b".", b"/", b"//", b"%2e", b"%2E%2e", b"%2f", b"%5c", b"%00", b"%25", b"%252e", b"%41", b"%7f", b"%1f", b"%20", b"%ff", b"%C3%A4", b"%zz", b"%4", b"%", b"%%41", b"%!!", b"%:0", b"%@@", b"%0x", b"%gA", b"%Ag", b"%-1", b"%+1", b"% 1".replace(b" ", b"/"),
            b"...", b"....", b"a", b"bc", b".a", b"a.", b"..a", b"a..", b"\\..", b";x", b"/../", b"/./", b"/..", b"/.", b"%2e/", b"%2f%2f"]
    for _ in range(n):
        if r.random() < 0.6:
            out += r.choice(toks)
        else:
            out.append(r.choice(al))
    if r.random() < 0.3:
        out += b"?" + bytes(r.choice(b"ab=&?/%2e+.~!'(){}|\\^[]`\"<>") for _ in range(r.randrange(0, 12)))
    if r.random() < 0.1:
        out += b"#" + bytes(r.choice(b"ab=&?/%2e#") for _ in range(r.randrange(0, 6)))
    if r.random() < 0.05:
        i = r.randrange(1, len(out) + 1)
        out[i:i] = bytes([r.choice([0x80, 0xff, 1, 9, 127, 0xc3])])
    t = bytes(out).replace(b" ", b"+")
    if r.random() < 0.12:
        t = r.choice([b"http://Example.ORG", b"https://h.example.:8080", b"http://user@h.x", b"http://u:p@h.x:1", b"http://a%41b", b"http://[::1]", b"ftp://x", b"http://", b"http:/", b"//h"]) + t
    return t


def spell(r, path):
    """a random equivalent spelling of a canonical path (no dots/doubles in it)"""
    out = bytearray()
    for i, c in enumerate(path):
        if c == 0x2f:
            out += r.choice([b"/", b"/", b"//", b"/./", b"/x/../", b"/%2e/", b"/y/%2e%2E/", b"/././", b"///", b"/a/b/../../", b"/%2fz%2f..%2f", b"/../" if len(out) == 0 else b"/"])
        elif r.random() < 0.25:
            out += (b"%%%02X" if r.random() < 0.5 else b"%%%02x") % c
        else:
            out.append(c)
    return bytes(out)


def run(chk):
    build.build("asan")
    root = os.path.join(chk.scratch, "www")
    os.makedirs(root + "/protected/sub")
    os.makedirs(root + "/open")
    names = ["protected/secret.txt", "protected/sub/deep.html", "open/free.txt"]
    for n in names:
        with open(os.path.join(root, n), "w") as f:
            f.write("CONTENT:" + n)
    bk = bwork.Backends(chk)
    conf = """docroot "%s";
if req.host == "files" { if req.path =^ "/protected/" { respond 403 => "denied"; } else { static; } }
else if req.host == "rx" { if req.path =~ "^/protected/.*" { respond 403 => "denied"; } static; }
else if req.host == "fcgi" { fastcgi "%s"; }
else { header.add "X-Phys" => "%%{phys.path}"; respond 200 => "%%{req.path}\x1f%%{req.query}\x1f%%{req.raw_path}\x1f%%{req.host}"; }
""" % (root, bk.stubs["fastcgi"].addr())
    bk.stubs["fastcgi"].handler = lambda rec: [("send", b"Status: 200\r\nX-M: 1\r\n\r\n" + SEP.join(rec.env.get(k, b"?") for k in (b"SCRIPT_NAME", b"QUERY_STRING", b"REQUEST_URI"))), ("end",)]
    srv = server.Server(chk, conf, modules=["mod_fastcgi"], workers=2).start()

    def ask(c, t, host):
        c.send(b"GET " + t + b" HTTP/1.1\r\nHost: " + host + b"\r\n\r\n")
        return c.read_response("GET")

    def batch(i):
        r = chk.rng("t", i)
        c = None
        for j in range(60):
            mode = r.choice(["probe"] * 6 + ["files", "rx", "fcgi"])
            if c is None:
                c = http.Conn(port=srv.port, timeout=30)
            if mode in ("files", "rx"):
                n = r.choice(names)
                canon = b"/" + n.encode()
                t = spell(r, canon)
                if urlref.split(t)[1] != canon:
                    continue
                rsp = ask(c, t, mode.encode())
                want = 403 if n.startswith("protected") else 200
                if rsp.status != want or b"CONTENT:protected" in rsp.body:
                    chk.violation("decision:%s" % mode, "spelling %r of %r was answered %d %r instead of %d" % (t, canon, rsp.status, rsp.body[:60], want), {"target": t})
                elif want == 200 and rsp.body != b"CONTENT:" + n.encode():
                    chk.violation("decision-body", "spelling %r of %r delivered %r" % (t, canon, rsp.body[:60]), {"target": t})
                else:
                    chk.ok(spelling=mode + str(want))
                if not rsp.keepalive():
                    c = None
                continue
            t = rand_target(r)
            exp = urlref.split(t)
            host = b"fcgi" if mode == "fcgi" else b"Probe.Host"
            if exp is not None and exp[0] is not None and mode == "fcgi":
                continue
            if mode == "fcgi" and (b"\xff" in urlref.decode(t)):
                pass
            try:
                rsp = ask(c, t, host)
            except http.Closed as e:
                chk.violation("closed", "connection closed for target %r: %s" % (t, e), {"target": t})
                c = None
                continue
            if not rsp.keepalive():
                c = None
            if exp is None:
                if b"[" in t and t.startswith(b"http"):
                    continue
                if rsp.status != 400:
                    chk.violation("accepted", "invalid target %r was answered with %d %r" % (t, rsp.status, rsp.body[:200]), {"target": t})
                else:
                    chk.ok(kind="rejected")
                continue
            eh, ep, eq, er = exp
            if rsp.status != 200:
                chk.violation("refused", "valid target %r was refused with %d" % (t, rsp.status), {"target": t, "expected": [ep, eq, er]})
                continue
            f = rsp.body.split(SEP)
            if mode == "fcgi":
                want = [ep, eq, er]
            else:
                want = [ep, eq, er, eh if eh is not None else b"probe.host"]
            if f != want:
                k = [a == b_ for a, b_ in zip(f, want)].index(False) if len(f) == len(want) else 9
                chk.violation("decode:%s:%s" % (mode, ["path", "query", "raw", "host"][k] if k < 4 else "?"), "target %r gave %r, expected %r" % (t, f, want), {"target": t})
                continue
            if mode == "probe":
                phys = rsp.get(b"x-phys")
                if phys != os.fsencode(root) + ep and not (ep.endswith(b" ") or b" " in ep[-1:]):
                    chk.violation("phys", "target %r gave physical path %r, expected %r" % (t, phys, os.fsencode(root) + ep), {"target": t})
                    continue
            chk.ok(kind=mode, features="".join(sorted({x for x, m in (("esc", b"%" in t), ("dot", b"/." in t or b"%2e" in t.lower()), ("dbl", b"//" in t), ("abs", eh is not None), ("q", b"?" in t), ("bad", b"%zz" in t or t.endswith(b"%"))) if m})))
            if j == 3:
                chk.sample({"target": t, "path": ep, "query": eq})
    check.parallel(8, batch, range(chk.n(700)))
    srv.verify("end")
    srv.stop()


if __name__ == "__main__":
    c = check.Check("P18", rule="one evaluation = one request target whose path, query, raw path and host as reported by the running server (pattern variables, FastCGI variables, file decision) equal the reference reading; "
                    "distinct = probe kinds, combinations of target features, decisions", assumptions=["the byte 0x1f cannot occur in a decoded path (control bytes become '_')"])
    check.run(c, run, min_evals=3000)
