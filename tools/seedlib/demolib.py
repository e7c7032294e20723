"""Small helpers for the demonstrations: start the built worker in a scratch folder, talk raw HTTP to it."""
import atexit, os, shutil, signal, socket, subprocess, sys, tempfile, threading, time

D = tempfile.mkdtemp(prefix="demo-")
os.chmod(D, 0o755)
_procs = []


def _clean():
    for p in _procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(D, ignore_errors=True)


atexit.register(_clean)
signal.alarm(240)


def free_port(host="127.0.0.1"):
    s = socket.socket()
    s.bind((host, 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Srv:
    def __init__(self, conf, modules=("mod_accesslog",), setup="", workers=1, env=None):
        self.port = free_port()
        self.dir = tempfile.mkdtemp(dir=D)
        txt = 'setup { workers %d; module_load [ %s ]; listen "127.0.0.1:%d"; %s }\nlog [ default => "file:%s/err.log" ];\n%s\n' % (
            workers, ", ".join('"%s"' % m for m in modules), self.port, setup, self.dir, conf)
        self.conf = self.dir + "/l.conf"
        open(self.conf, "w").write(txt)
        e = dict(os.environ, TMPDIR=self.dir)
        e.update(env or {})
        self.p = subprocess.Popen(["/repo/_build/src/main/lighttpd2-worker", "-m", "/repo/_build/src/modules", "-c", self.conf],
                                  stdout=open(self.dir + "/out", "wb"), stderr=subprocess.STDOUT, env=e, cwd=self.dir)
        _procs.append(self.p)
        for _ in range(300):
            try:
                socket.create_connection(("127.0.0.1", self.port), 5).close()
                return
            except OSError:
                time.sleep(0.05)
                if self.p.poll() is not None:
                    print(open(self.dir + "/out").read())
                    sys.exit("server did not start")

    def conn(self, timeout=10):
        s = socket.create_connection(("127.0.0.1", self.port), timeout)
        return s


def recvall(s, timeout=5):
    """everything until the peer closes (or timeout)"""
    s.settimeout(timeout)
    b = b""
    try:
        while True:
            d = s.recv(65536)
            if not d:
                break
            b += d
    except OSError:
        pass
    return b


def req(port, data, timeout=5):
    s = socket.create_connection(("127.0.0.1", port), timeout)
    s.sendall(data)
    r = recvall(s, timeout)
    s.close()
    return r


def get(port, target="/", headers="", host="localhost", timeout=10, method="GET"):
    r = req(port, ("%s %s HTTP/1.1\r\nHost: %s\r\n%sConnection: close\r\n\r\n" % (method, target, host, headers)).encode("latin-1"), timeout)
    h, _, b = r.partition(b"\r\n\r\n")
    return h, b


def backend(fn, n=50):
    """TCP backend: fn(sock) per connection; returns port"""
    ls = socket.socket()
    ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    ls.bind(("127.0.0.1", 0))
    ls.listen(n)

    def loop():
        while True:
            try:
                s, _ = ls.accept()
            except OSError:
                return

            def run(s=s):
                try:
                    fn(s)
                except OSError:
                    pass
                finally:
                    s.close()
            threading.Thread(target=run, daemon=True).start()
    threading.Thread(target=loop, daemon=True).start()
    return ls.getsockname()[1]


def read_head(s):
    b = b""
    while b"\r\n\r\n" not in b:
        d = s.recv(65536)
        if not d:
            return b
        b += d
    return b


def fail(msg):
    print("DEMO FAILED:", msg)
    sys.exit(1)
