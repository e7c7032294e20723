"""Stub backends (HTTP for mod_proxy, FastCGI, SCGI) that record every request they see and answer from a script.

A script is a list of actions: ("send", bytes) ("sleep", s) ("close",) ("rst",) ("hang", s) ("wait", event).
For FastCGI "send" bytes are wrapped into STDOUT records, ("stderr", bytes), ("raw", bytes), ("end", app_status, proto_status)."""
import re
import socket
import struct
import threading
import time


class ReqRec:
    def __init__(self):
        self.t = time.time()
        self.env = {}
        self.envlist = []
        self.headers = []
        self.body = b""
        self.method = self.target = self.version = None
        self.complete = False
        self.error = None
        self.conn = None
        self.raw_head = b""
        self.extra = b""

    def get(self, k, d=None):
        for a, v in self.headers:
            if a.lower() == k.lower():
                return v
        return d

    def all(self, k):
        return [v for a, v in self.headers if a.lower() == k.lower()]


class Stub:
    kind = "http"

    def __init__(self, handler, host="127.0.0.1", port=0, backlog=512, accept=True):
        """handler(rec) -> script (list of actions)"""
        self.handler = handler
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ls.bind((host, port))
        self.host = host
        self.port = self.ls.getsockname()[1]
        self.ls.listen(backlog)
        self.recs = []
        self.lock = threading.Lock()
        self.stopped = False
        self.active = 0
        self.max_active = 0
        self.nconn = 0
        self.conns = set()
        self.errors = []
        self.seg = 0  # max size of one read (segmentation)
        if accept:
            self.th = threading.Thread(target=self._loop, daemon=True)
            self.th.start()

    def addr(self):
        return "%s:%d" % (self.host, self.port)

    def _loop(self):
        while not self.stopped:
            try:
                s, a = self.ls.accept()
            except OSError:
                return
            if self.stopped:
                s.close()
                return
            with self.lock:
                self.nconn += 1
                cid = self.nconn
                self.conns.add(s)
            threading.Thread(target=self._conn, args=(s, cid), daemon=True).start()

    def _conn(self, s, cid):
        with self.lock:
            self.active += 1
            self.max_active = max(self.max_active, self.active)
        try:
            s.settimeout(120)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.serve(s, cid)
        except (OSError, ValueError) as e:
            pass
        except Exception as e:
            self.errors.append(repr(e))
        finally:
            with self.lock:
                self.active -= 1
                self.conns.discard(s)
            try:
                s.close()
            except OSError:
                pass

    def stop(self):
        self.stopped = True
        try:
            self.ls.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        try:
            self.ls.close()
        except OSError:
            pass
        with self.lock:
            cs = list(self.conns)
        for c in cs:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def take(self):
        with self.lock:
            r = self.recs
            self.recs = []
        return r

    def record(self, rec):
        with self.lock:
            self.recs.append(rec)

    def run_script(self, s, script, send):
        """returns True to keep the connection"""
        for a in script:
            if a[0] == "send":
                send(a[1])
            elif a[0] == "raw":
                s.sendall(a[1])
            elif a[0] == "sleep":
                time.sleep(a[1])
            elif a[0] == "wait":
                a[1].wait(60)
            elif a[0] == "hang":
                s.settimeout(a[1])
                try:
                    while s.recv(65536):
                        pass
                except OSError:
                    pass
                if len(a) > 2:
                    a[2]()
                return False
            elif a[0] == "close":
                return False
            elif a[0] == "rst":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                return False
            elif a[0] == "call":
                a[1]()
            else:
                raise AssertionError("unknown action %r" % (a,))
        return True


def _recv(s, n=65536):
    try:
        return s.recv(n)
    except (ConnectionResetError, socket.timeout):
        return b""


class HttpStub(Stub):
    """strict HTTP request reader"""
    kind = "http"

    def serve(self, s, cid):
        buf = bytearray()
        while not self.stopped:
            while b"\r\n\r\n" not in buf:
                d = _recv(s)
                if not d:
                    if buf:
                        r = ReqRec()
                        r.error = "eof in head"
                        r.raw_head = bytes(buf)
                        r.conn = cid
                        self.record(r)
                    return
                buf += d
            i = buf.find(b"\r\n\r\n")
            r = ReqRec()
            r.conn = cid
            r.raw_head = bytes(buf[:i])
            del buf[:i + 4]
            lines = r.raw_head.split(b"\r\n")
            m = re.match(rb"^([!#$%&'*+\-.^_`|~0-9A-Za-z]+) (\S+) HTTP/(1\.[01])$", lines[0])
            if not m:
                r.error = "bad request line %r" % lines[0]
                self.record(r)
                return
            r.method, r.target, r.version = m.groups()
            for l in lines[1:]:
                k, sep, v = l.partition(b":")
                if not sep or not re.match(rb"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$", k) or b"\r" in l or b"\n" in l or b"\x00" in l:
                    r.error = "bad header line %r" % l
                r.headers.append((k, v.strip(b" \t")))
            cl = r.all(b"content-length")
            te = r.all(b"transfer-encoding")
            if len(cl) > 1 or (te and cl) or len(te) > 1:
                r.error = "ambiguous framing cl=%r te=%r" % (cl, te)
            if te:
                if te[0].lower() != b"chunked":
                    r.error = "te %r" % te
                self._chunked(s, buf, r)
            else:
                n = 0
                if cl:
                    if not re.match(rb"^[0-9]+$", cl[0]):
                        r.error = "bad content-length %r" % cl
                    else:
                        n = int(cl[0])
                while len(buf) < n:
                    d = _recv(s)
                    if not d:
                        r.error = r.error or "eof in body"
                        break
                    buf += d
                r.body = bytes(buf[:n])
                del buf[:n]
                r.complete = len(r.body) == n
            self.record(r)
            script = self.handler(r)
            if not self.run_script(s, script, s.sendall):
                return
            if r.error:
                return

    def _chunked(self, s, buf, r):
        body = bytearray()

        def need(n):
            while len(buf) < n:
                d = _recv(s)
                if not d:
                    return False
                buf.extend(d)
            return True
        while True:
            while b"\r\n" not in buf:
                if not need(len(buf) + 1):
                    r.error = "eof in chunk"
                    return
            i = buf.find(b"\r\n")
            try:
                n = int(bytes(buf[:i]), 16)
            except ValueError:
                r.error = "bad chunk header %r" % bytes(buf[:i])
                return
            del buf[:i + 2]
            if not need(n + 2):
                r.error = "eof in chunk"
                return
            if buf[n:n + 2] != b"\r\n":
                r.error = "chunk crlf"
                return
            body += buf[:n]
            del buf[:n + 2]
            if n == 0:
                r.body = bytes(body)
                r.complete = True
                return


class ScgiStub(Stub):
    kind = "scgi"

    def serve(self, s, cid):
        buf = bytearray()

        def need(n):
            while len(buf) < n:
                d = _recv(s)
                if not d:
                    return False
                buf.extend(d)
            return True
        r = ReqRec()
        r.conn = cid
        while b":" not in buf[:20]:
            if len(buf) > 20 or not need(len(buf) + 1):
                if buf:
                    r.error = "bad netstring"
                    self.record(r)
                return
        i = buf.find(b":")
        n = int(bytes(buf[:i]))
        if not need(i + 1 + n + 1):
            r.error = "eof in env"
            self.record(r)
            return
        if buf[i + 1 + n:i + 2 + n] != b",":
            r.error = "netstring not terminated by comma"
        env = bytes(buf[i + 1:i + 1 + n])
        del buf[:i + 2 + n]
        parts = env.split(b"\0")
        if parts[-1] != b"" or len(parts) % 2 != 1:
            r.error = "bad env encoding"
        else:
            r.envlist = list(zip(parts[0:-1:2], parts[1:-1:2]))
            r.env = {}
            for k, v in r.envlist:
                if k in r.env:
                    r.error = r.error or "duplicate env %r" % k
                r.env[k] = v
            if not r.envlist or r.envlist[0][0] != b"CONTENT_LENGTH":
                r.error = "CONTENT_LENGTH not first"
            if r.env.get(b"SCGI") != b"1":
                r.error = "no SCGI=1"
        try:
            cl = int(r.env.get(b"CONTENT_LENGTH", b"0"))
        except ValueError:
            r.error = "bad CONTENT_LENGTH"
            cl = 0
        if not need(cl):
            r.error = r.error or "eof in body"
        r.body = bytes(buf[:cl])
        r.extra = bytes(buf[cl:])
        r.complete = len(r.body) == cl
        self.record(r)
        self.run_script(s, self.handler(r), s.sendall)


def fcgi_record(typ, rid, data, pad=0):
    return struct.pack(">BBHHBB", 1, typ, rid, len(data), pad, 0) + data + b"\0" * pad


class FcgiStub(Stub):
    kind = "fastcgi"
    chunk = 65535
    pad = 0

    def serve(self, s, cid):
        buf = bytearray()

        def need(n):
            while len(buf) < n:
                d = _recv(s)
                if not d:
                    return False
                buf.extend(d)
            return True
        while not self.stopped:
            r = ReqRec()
            r.conn = cid
            params = bytearray()
            body = bytearray()
            state = 0
            rid = None
            keep = 0
            while state < 3:
                if not need(8):
                    if state or buf:
                        r.error = "eof in state %d" % state
                        self.record(r)
                    return
                ver, typ, xid, clen, plen, _ = struct.unpack(">BBHHBB", bytes(buf[:8]))
                if not need(8 + clen + plen):
                    r.error = "eof in record"
                    self.record(r)
                    return
                data = bytes(buf[8:8 + clen])
                del buf[:8 + clen + plen]
                if ver != 1:
                    r.error = "bad version"
                if typ == 1:
                    if state != 0:
                        r.error = "BEGIN in state %d" % state
                    rid = xid
                    role, flags = struct.unpack(">HB", data[:3])
                    keep = flags & 1
                    if role != 1 or len(data) != 8:
                        r.error = "bad begin"
                    state = 1
                elif typ == 4:
                    if state != 1 or xid != rid:
                        r.error = "PARAMS in state %d" % state
                    if clen == 0:
                        state = 2
                    params += data
                elif typ == 5:
                    if state != 2 or xid != rid:
                        r.error = "STDIN in state %d" % state
                    if clen == 0:
                        state = 3
                    body += data
                else:
                    r.error = "unexpected record type %d" % typ
                if r.error:
                    self.record(r)
                    return
            p = 0
            params = bytes(params)
            try:
                while p < len(params):
                    ls = []
                    for _ in range(2):
                        n = params[p]
                        if n & 0x80:
                            n = struct.unpack(">I", params[p:p + 4])[0] & 0x7fffffff
                            p += 4
                        else:
                            p += 1
                        ls.append(n)
                    k = params[p:p + ls[0]]
                    v = params[p + ls[0]:p + ls[0] + ls[1]]
                    if len(k) != ls[0] or len(v) != ls[1]:
                        raise IndexError
                    p += ls[0] + ls[1]
                    r.envlist.append((k, v))
                    if k in r.env:
                        r.error = r.error or "duplicate param %r" % k
                    r.env[k] = v
            except IndexError:
                r.error = "bad params encoding"
            r.body = bytes(body)
            r.complete = True
            self.record(r)

            def send(d):
                for i in range(0, len(d), self.chunk):
                    s.sendall(fcgi_record(6, rid, d[i:i + self.chunk], self.pad))
            script = self.handler(r)
            script2 = []
            ended = False
            for a in script:
                if a[0] == "stderr":
                    script2.append(("raw", fcgi_record(7, rid, a[1])))
                elif a[0] == "record":
                    script2.append(("raw", fcgi_record(a[1], rid, a[2], a[3] if len(a) > 3 else 0)))
                elif a[0] == "end":
                    ended = True
                    script2.append(("raw", fcgi_record(6, rid, b"") + fcgi_record(3, rid, struct.pack(">IBBBB", a[1] if len(a) > 1 else 0, a[2] if len(a) > 2 else 0, 0, 0, 0))))
                else:
                    script2.append(a)
            if not self.run_script(s, script2, send):
                return
            if not keep or not ended:
                return


KINDS = {"proxy": HttpStub, "fastcgi": FcgiStub, "scgi": ScgiStub}
