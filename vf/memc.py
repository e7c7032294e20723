"""Stub memcached server (text protocol): records every command, answers from a dict or from a script per key."""
import random
import socket
import struct
import threading
import time


class Memc:
    def __init__(self, seed=1, host="127.0.0.1", port=0):
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ls.bind((host, port))
        self.ls.listen(256)
        self.host, self.port = host, self.ls.getsockname()[1]
        self.data = {}       # key -> (flags, value)
        self.faults = {}     # key -> fn(key) -> actions: bytes | ("sleep", s) | ("close",) | ("rst",)
        self.setreply = None  # fn(key) -> actions
        self.gets, self.sets, self.errors = [], [], []
        self.maxseg = 0      # > 0: answers are sent in pieces
        self.nconn = 0
        self.lock = threading.Lock()
        self.rng = random.Random(seed)
        self.conns = set()
        self.stopped = False
        threading.Thread(target=self._loop, daemon=True).start()

    def addr(self):
        return "%s:%d" % (self.host, self.port)

    def stop(self):
        self.stopped = True
        try:
            self.ls.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.ls.close()
        self.drop()

    def drop(self):
        with self.lock:
            cs, self.conns = list(self.conns), set()
        for s in cs:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def _loop(self):
        while not self.stopped:
            try:
                s, _ = self.ls.accept()
            except OSError:
                return
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            with self.lock:
                self.conns.add(s)
                self.nconn += 1
            threading.Thread(target=self._conn, args=(s,), daemon=True).start()

    def _out(self, s, b):
        if not self.maxseg:
            s.sendall(b)
            return
        while b:
            with self.lock:
                k = self.rng.random()
                n = 1 if k < 0.2 else self.rng.randrange(1, self.maxseg + 1) if k < 0.6 else len(b)
                if k > 0.6 and len(b) > 8:  # cut near the end, inside the terminators
                    n = len(b) - self.rng.randrange(0, 9)
                z = self.rng.random() < 0.5
            s.sendall(b[:n])
            b = b[n:]
            if b and z:
                time.sleep(0.002)

    def _do(self, s, acts):
        """returns False if the connection is gone"""
        for a in acts:
            if isinstance(a, (bytes, bytearray)):
                self._out(s, a)
            elif a[0] == "sleep":
                time.sleep(a[1])
            elif a[0] == "close":
                return False
            elif a[0] == "rst":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                return False
        return True

    @staticmethod
    def value(key, flags, v):
        return b"VALUE %s %d %d\r\n%s\r\nEND\r\n" % (key, flags, len(v), v)

    def _conn(self, s):
        buf = b""

        def more():
            nonlocal buf
            d = s.recv(65536)
            if not d:
                raise EOFError
            buf += d
        try:
            while True:
                while b"\r\n" not in buf:
                    more()
                line, buf = buf.split(b"\r\n", 1)
                w = line.split(b" ")
                if w[0] == b"get" and len(w) == 2:
                    key = w[1]
                    with self.lock:
                        self.gets.append(key)
                    f = self.faults.get(key)
                    if f:
                        acts = f(key)
                    elif key in self.data:
                        acts = [self.value(key, *self.data[key])]
                    else:
                        acts = [b"END\r\n"]
                elif w[0] == b"set" and len(w) == 5 and all(x.isdigit() for x in w[2:]):
                    n = int(w[4])
                    while len(buf) < n + 2:
                        more()
                    v, t, buf = buf[:n], buf[n:n + 2], buf[n + 2:]
                    with self.lock:
                        if t != b"\r\n":
                            self.errors.append("data of a set command not terminated: %r" % t)
                        self.sets.append((w[1], int(w[2]), int(w[3]), v))
                    acts = self.setreply(w[1]) if self.setreply else [b"STORED\r\n"]
                else:
                    with self.lock:
                        self.errors.append("unknown command %r" % line[:200])
                    acts = [b"ERROR\r\n"]
                if not self._do(s, acts):
                    return
        except (OSError, EOFError):
            pass
        finally:
            with self.lock:
                self.conns.discard(s)
            s.close()
