"""Raw HTTP/1.x client with a strict response parser (the oracle for response framing)."""
import re
import socket
import struct
import time

TOKEN = re.compile(rb"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")
STATUS = re.compile(rb"^HTTP/1\.([01]) ([1-5][0-9][0-9]) ([^\r\n\x00]*)$")


class ProtoError(Exception):
    """the peer's bytes are not a well-formed HTTP response stream"""


class Timeout(Exception):
    pass


class Closed(Exception):
    """connection ended where a response had to start"""


class Resp:
    __slots__ = ("status", "minor", "reason", "headers", "body", "framing", "complete", "raw_head", "trailers", "chunks", "t", "interim")

    def get(self, name, default=None):
        name = name.lower()
        for k, v in self.headers:
            if k.lower() == name:
                return v
        return default

    def all(self, name):
        name = name.lower()
        return [v for k, v in self.headers if k.lower() == name]

    def keepalive(self):
        c = ",".join(x.decode("latin-1") for x in self.all(b"connection")).lower()
        toks = [t.strip() for t in c.split(",")]
        if "close" in toks:
            return False
        if self.minor == 0:
            return "keep-alive" in toks
        return True

    def __repr__(self):
        return "<%d %s %s len=%d%s>" % (self.status, self.framing, self.headers, len(self.body), "" if self.complete else " TRUNCATED")


def parse_head(head):
    """head: bytes up to (not including) the empty line's CRLF CRLF. strict."""
    lines = head.split(b"\r\n")
    m = STATUS.match(lines[0])
    if not m:
        raise ProtoError("bad status line %r" % lines[0][:200])
    hs = []
    for l in lines[1:]:
        if b"\r" in l or b"\n" in l or b"\x00" in l:
            raise ProtoError("bare CR/LF/NUL in header %r" % l[:200])
        k, sep, v = l.partition(b":")
        if not sep or not TOKEN.match(k):
            raise ProtoError("bad header line %r" % l[:200])
        hs.append((k, v.strip(b" \t")))
    return int(m.group(1)), int(m.group(2)), m.group(3), hs


class Conn:
    def __init__(self, host="127.0.0.1", port=80, src=None, timeout=60, rcvbuf=None, sock=None, nodelay=True):
        self.timeout = timeout
        if sock is not None:
            self.s = sock
        else:
            fam = socket.AF_INET6 if ":" in host else socket.AF_INET
            self.s = socket.socket(fam, socket.SOCK_STREAM)
            if rcvbuf:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            if src:
                self.s.bind((src, 0))
            self.s.settimeout(timeout)
            self.s.connect((host, port))
            if nodelay:
                self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(timeout)
        self.buf = bytearray()
        self.eof = False
        self.reset = False
        self.nread = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def send(self, data):
        """returns False when the peer closed on us"""
        try:
            self.s.sendall(data)
            return True
        except socket.timeout:
            raise Timeout("send timed out")
        except OSError:
            return False

    def send_segments(self, data, cuts, delay=0.0):
        pos = 0
        for c in list(cuts) + [len(data)]:
            if c > pos:
                if not self.send(data[pos:c]):
                    return False
                pos = c
                if delay:
                    time.sleep(delay)
        return True

    def fill(self, timeout=None):
        if self.eof:
            return False
        self.s.settimeout(self.timeout if timeout is None else timeout)
        try:
            d = self.s.recv(262144)
        except (ConnectionResetError, ConnectionAbortedError, BrokenPipeError):
            self.eof = self.reset = True
            return False
        except socket.timeout:
            raise Timeout("recv timed out; have %r" % bytes(self.buf[:200]))
        if not d:
            self.eof = True
            return False
        self.nread += len(d)
        self.buf += d
        return True

    def _until(self, pat, start=0, limit=1 << 20):
        while True:
            i = self.buf.find(pat, start)
            if i >= 0:
                return i
            if len(self.buf) > limit:
                raise ProtoError("no %r within %d bytes" % (pat, limit))
            if not self.fill():
                return -1

    def read_response(self, method="GET", interim=True):
        """strictly parse one response. raises Closed, ProtoError, Timeout."""
        inter = []
        while True:
            r = self._read1(method)
            if 100 <= r.status < 200 and r.status != 101 and interim:
                inter.append(r)
                continue
            r.interim = inter
            return r

    def _read1(self, method):
        if not self.buf and not self.fill():
            raise Closed("reset" if self.reset else "eof")
        i = self._until(b"\r\n\r\n")
        if i < 0:
            if self.reset:
                raise Closed("reset within head")
            raise ProtoError("connection ended inside the response head: %r" % bytes(self.buf[:300]))
        r = Resp()
        r.interim = []
        r.t = time.time()
        r.raw_head = bytes(self.buf[:i])
        del self.buf[:i + 4]
        r.minor, r.status, r.reason, r.headers = parse_head(r.raw_head)
        r.trailers = []
        r.chunks = 0
        r.complete = True
        r.body = b""
        te = r.all(b"transfer-encoding")
        cl = r.all(b"content-length")
        if len(set(cl)) > 1 or len(cl) > 1:
            raise ProtoError("several content-length headers %r" % cl)
        if cl and not re.match(rb"^[0-9]{1,18}$", cl[0]):
            raise ProtoError("bad content-length %r" % cl)
        if te and cl:
            raise ProtoError("content-length together with transfer-encoding")
        if len(te) > 1:
            raise ProtoError("several transfer-encoding headers")
        if te and te[0].lower() != b"chunked":
            raise ProtoError("unknown transfer-encoding %r" % te)
        if te and (r.status < 200 or r.status == 204):
            raise ProtoError("transfer-encoding in a %d response" % r.status)
        if method == "HEAD" or r.status < 200 or r.status in (204, 304):
            r.framing = "none"
            return r
        if te:
            r.framing = "chunked"
            if r.minor == 0:
                raise ProtoError("chunked body in a HTTP/1.0 response")
            self._chunked(r)
        elif cl:
            r.framing = "length"
            n = int(cl[0])
            while len(self.buf) < n:
                if not self.fill():
                    r.complete = False
                    break
            r.body = bytes(self.buf[:n])
            del self.buf[:n]
        else:
            r.framing = "close"
            while self.fill():
                pass
            r.body = bytes(self.buf)
            del self.buf[:]
            if self.reset:
                r.complete = False
        return r

    def _chunked(self, r):
        body = bytearray()
        while True:
            i = self._until(b"\r\n", limit=4096 + len(self.buf))
            if i < 0:
                r.complete = False
                break
            line = bytes(self.buf[:i])
            if not re.match(rb"^[0-9A-Fa-f]{1,15}$", line):
                raise ProtoError("bad chunk header %r" % line[:100])
            n = int(line, 16)
            del self.buf[:i + 2]
            r.chunks += 1
            if n == 0:
                while True:
                    i = self._until(b"\r\n")
                    if i < 0:
                        r.complete = False
                        break
                    l = bytes(self.buf[:i])
                    del self.buf[:i + 2]
                    if not l:
                        break
                    r.trailers.append(l)
                break
            while len(self.buf) < n + 2:
                if not self.fill():
                    break
            if len(self.buf) < n + 2:
                r.complete = False
                body += self.buf[:n]
                del self.buf[:]
                break
            if self.buf[n:n + 2] != b"\r\n":
                raise ProtoError("chunk not followed by CRLF")
            body += self.buf[:n]
            del self.buf[:n + 2]
        r.body = bytes(body)

    def read_all(self, limit=1 << 30, timeout=None):
        while len(self.buf) < limit and self.fill(timeout):
            pass
        return bytes(self.buf)

    def rst(self):
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.close()

    def shut_wr(self):
        try:
            self.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


def b(x):
    return x if isinstance(x, bytes) else x.encode("latin-1")


def build_request(method="GET", target="/", headers=(), body=None, version="1.1", host=b"localhost", chunked=None):
    out = [b(method) + b" " + b(target) + b" HTTP/" + b(version)]
    names = [b(k).lower() for k, _ in headers]
    if host is not None and b"host" not in names:
        out.append(b"Host: " + b(host))
    for k, v in headers:
        out.append(b(k) + b": " + b(v))
    payload = b""
    if body is not None:
        if chunked is not None:
            out.append(b"Transfer-Encoding: chunked")
            parts = []
            pos = 0
            for n in chunked:
                if n > 0 and pos < len(body):
                    c = body[pos:pos + n]
                    parts.append(b"%x\r\n" % len(c) + c + b"\r\n")
                    pos += n
            if pos < len(body):
                c = body[pos:]
                parts.append(b"%x\r\n" % len(c) + c + b"\r\n")
            parts.append(b"0\r\n\r\n")
            payload = b"".join(parts)
        else:
            if b"content-length" not in names:
                out.append(b"Content-Length: %d" % len(body))
            payload = body
    return b"\r\n".join(out) + b"\r\n\r\n" + payload


def get(port, target="/", method="GET", headers=(), body=None, host=b"localhost", src=None, timeout=60, version="1.1", addr="127.0.0.1", close=True,
        chunked=None):
    with Conn(addr, port, src=src, timeout=timeout) as c:
        hs = list(headers)
        if close and version == "1.1":
            hs.append(("Connection", "close"))
        c.send(build_request(method, target, hs, body, version, host, chunked))
        return c.read_response(method)
