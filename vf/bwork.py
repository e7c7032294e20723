"""Scripted backends behind one server: /proxy/<id>, /fastcgi/<id>, /scgi/<id> answer with the script registered for <id>."""
import re
import threading

from . import backends


class Backends:
    def __init__(self, chk):
        self.chk = chk
        self.scripts = {}
        self.seen = {}
        self.lock = threading.Lock()
        self.unknown = []
        self.stubs = {k: cls(self._handler(k)) for k, cls in backends.KINDS.items()}
        chk.cleanup(self.stop)

    def _handler(self, kind):
        def h(rec):
            t = rec.target if kind == "proxy" else rec.env.get(b"REQUEST_URI", b"")
            m = re.search(rb"/z?(?:proxy|fastcgi|scgi)[a-z0-9]*/([A-Za-z0-9_-]+)", t or b"")
            rid = m.group(1).decode() if m else "?"
            with self.lock:
                self.seen.setdefault(rid, []).append(rec)
                s = self.scripts.get(rid)
            if s is None:
                with self.lock:
                    self.unknown.append((kind, t, rec))
                return [("close",)]
            return s(rec) if callable(s) else s
        return h

    def set(self, rid, script):
        with self.lock:
            self.scripts[rid] = script

    def take(self, rid):
        with self.lock:
            self.scripts.pop(rid, None)
            return self.seen.pop(rid, [])

    def config(self, suffix="", pre="", post=""):
        """config text routing the three prefixes"""
        out = []
        for k in ("proxy", "fastcgi", "scgi"):
            out.append('if req.path =^ "/%s%s/" { %s %s "%s"; %s }' % (k, suffix, pre, k, self.stubs[k].addr(), post))
        return "\n".join(out)

    def stop(self):
        for s in self.stubs.values():
            s.stop()


def segment(r, data, mode=None):
    """split bytes into scripted sends with small delays"""
    mode = mode or r.choice(["one", "one", "head", "random", "bytes"])
    if mode == "one" or len(data) < 2:
        return [("send", data)]
    if mode == "head":
        i = data.find(b"\n\r\n")
        i = data.find(b"\r\n\r\n") + 4 if i >= 0 else len(data) // 2
        cuts = [i]
    elif mode == "random":
        cuts = sorted({r.randrange(1, len(data)) for _ in range(r.randrange(1, 8))})
    else:
        a = r.randrange(max(1, min(len(data), 400)))
        cuts = list(range(max(1, a), min(len(data), a + 25)))
    out = []
    pos = 0
    for c in cuts + [len(data)]:
        if c > pos:
            out.append(("send", data[pos:c]))
            out.append(("sleep", r.choice([0, 0.001, 0.001, 0.004])))
            pos = c
    return out


def chunk_encode(r, body, maxn=None):
    out = []
    pos = 0
    while pos < len(body):
        n = r.choice([1, 2, 7, 16, 100, 1000, 5000, 20000])
        c = body[pos:pos + n]
        hx = b"%x" % len(c)
        if r.random() < 0.3:
            hx = hx.upper()
        if r.random() < 0.1:
            hx = b"00" + hx
        out.append(hx + b"\r\n" + c + b"\r\n")
        pos += n
    out.append(b"0\r\n\r\n")
    return b"".join(out)
