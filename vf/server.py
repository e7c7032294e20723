"""Runs the real lighttpd2-worker (sanitized build) and watches it."""
import glob
import os
import re
import signal
import socket
import subprocess
import threading
import time

from . import build

ALL_MODULES = ["mod_access", "mod_accesslog", "mod_auth", "mod_balance", "mod_cache_disk_etag", "mod_debug", "mod_deflate",
               "mod_dirlist", "mod_expire", "mod_fastcgi", "mod_flv", "mod_fortune", "mod_limit", "mod_lua", "mod_memcached",
               "mod_progress", "mod_proxy", "mod_redirect", "mod_rewrite", "mod_scgi", "mod_status", "mod_throttle",
               "mod_userdir", "mod_vhost"]

_used = set()
_plock = threading.Lock()


def free_port(host="127.0.0.1"):
    with _plock:
        for _ in range(200):
            s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((host, 0))
            p = s.getsockname()[1]
            s.close()
            if p not in _used:
                _used.add(p)
                return p
        raise RuntimeError("no free port")


class ServerDied(Exception):
    pass


class Server:
    """config: full text after the setup block; setup: extra text in the setup block"""

    def __init__(self, chk, config, setup="", modules=(), workers=2, variant="asan", name="srv", listen=None, leaks=False,
                 env=None, accesslog=None, wrapper=(), raw=False, preload=None, user=None, cwd=None, start_timeout=60, ubsan=False):
        self.chk = chk
        self.variant = variant
        self.name = name
        self.dir = os.path.join(chk.scratch, "%s-%d" % (name, int(time.time() * 1e6) % 10 ** 9))
        os.makedirs(self.dir)
        self.host = "127.0.0.1"
        self.port = free_port()
        self.leaks = leaks
        self.user = user
        self.ubsan = ubsan
        self.errlog = os.path.join(self.dir, "error.log")
        if raw:
            self.config = config.replace("@PORT@", str(self.port)).replace("@DIR@", self.dir)
        else:
            lst = listen if listen is not None else 'listen "127.0.0.1:%d";' % self.port
            self.config = """setup {
	workers %d;
	module_load [ %s ];
	%s
	%s
}
log [ default => "file:%s" ];
%s
""" % (workers, ", ".join('"%s"' % m for m in modules) if modules else '"mod_accesslog"', lst, setup, self.errlog, config)
            self.config = self.config.replace("@PORT@", str(self.port)).replace("@DIR@", self.dir)
        self.conf = os.path.join(self.dir, "lighttpd.conf")
        with open(self.conf, "w", encoding="latin-1") as f:
            f.write(self.config)
        self.env = {"PATH": "/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C", "HOME": self.dir, "TMPDIR": self.dir, "TZ": "UTC",
                    "G_DEBUG": "fatal-criticals"}
        self.env.update(build.san_env(variant, self.dir, leaks))
        if env:
            self.env.update(env)
        if preload:
            self.env["LD_PRELOAD"] = preload
        self.wrapper = list(wrapper)
        self.proc = None
        self.stopped = False
        chk.servers.append(self)
        self.reported = False
        self.start_timeout = start_timeout
        self.cwd = cwd or self.dir

    def argv(self):
        return self.wrapper + [build.worker_bin(self.variant), "-m", build.module_dir(self.variant), "-c", self.conf] + (["--module-resident"] if self.leaks else [])

    def start(self):
        self.stderr = open(os.path.join(self.dir, "stderr.log"), "wb")
        kw = {}
        if self.user is not None:
            os.chown(self.dir, self.user, self.user)
            for f in os.listdir(self.dir):
                os.chown(os.path.join(self.dir, f), self.user, self.user)
            kw = dict(user=self.user, group=self.user, extra_groups=[])
        self.proc = subprocess.Popen(self.argv(), stdin=subprocess.DEVNULL, stdout=self.stderr, stderr=self.stderr, env=self.env,
                                     cwd=self.cwd, close_fds=True, start_new_session=True, **kw)
        self.chk.cleanup(self.kill)
        t = time.time()
        while True:
            if self.proc.poll() is not None:
                raise ServerDied("server %s did not start (rc=%s): %s" % (self.name, self.proc.returncode, self.logs()[-3000:]))
            s = socket.socket()
            s.settimeout(5)
            try:
                s.connect((self.host, self.port))
                s.close()
                return self
            except OSError:
                s.close()
            if time.time() - t > self.start_timeout:
                raise ServerDied("server %s did not listen in time: %s" % (self.name, self.logs()[-2000:]))
            time.sleep(0.03)

    def wait_port(self, port, host="127.0.0.1"):
        t = time.time()
        while time.time() - t < self.start_timeout:
            if not self.alive():
                raise ServerDied("server %s died while starting: %s" % (self.name, self.logs()[-2000:]))
            s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
            s.settimeout(5)
            try:
                s.connect((host, port))
                return self
            except OSError:
                time.sleep(0.03)
            finally:
                s.close()
        raise ServerDied("server %s does not listen on %d: %s" % (self.name, port, self.logs()[-2000:]))

    def logs(self):
        out = ""
        for f in ("stderr.log", "error.log"):
            try:
                out += open(os.path.join(self.dir, f), "rb").read()[-200000:].decode("latin-1")
            except OSError:
                pass
        return out

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def san_reports(self):
        """list of (key, text) of sanitizer report blocks"""
        res = []
        for f in sorted(glob.glob(os.path.join(self.dir, "san.*"))):
            txt = open(f, "rb").read().decode("latin-1")
            res += split_reports(txt)
        if self.ubsan:
            # the UBSan runtime beside ASan does not follow log_path
            try:
                txt = open(os.path.join(self.dir, "stderr.log"), "rb").read().decode("latin-1")
            except OSError:
                txt = ""
            for p in re.findall(r"(?m)^[^\n]*runtime error: [^\n]*\n(?:\s+#[^\n]*\n)*", txt):
                res += split_reports(p)
        return res

    def verify(self, ctx="", expect_alive=True):
        """report crash / sanitizer findings as violations of the running property."""
        if self.reported:
            return False
        reps = self.san_reports()
        bad = False
        seen = set()
        for key, txt in reps:
            if key in seen:
                continue
            seen.add(key)
            bad = True
            self.chk.violation("sanitizer:" + key, "sanitizer report (%s %s): %s" % (self.name, ctx, txt[:1800]), {"report": txt[:12000], "ctx": ctx})
        if expect_alive and not self.alive():
            bad = True
            rc = self.proc.returncode if self.proc else None
            if not reps:
                self.chk.violation("crash:rc=%s:%s" % (rc, crash_key(self.logs())), "server %s died (rc=%s) %s: %s" % (self.name, rc, ctx, self.logs()[-1500:]),
                                   {"logs": self.logs()[-8000:], "ctx": ctx})
            self.reported = True
        return not bad

    def rss_kb(self):
        for l in open("/proc/%d/status" % self.proc.pid):
            if l.startswith("VmRSS"):
                return int(l.split()[1])

    def fds(self):
        d = "/proc/%d/fd" % self.proc.pid
        r = {}
        for f in os.listdir(d):
            try:
                r[int(f)] = os.readlink(os.path.join(d, f))
            except OSError:
                pass
        return r

    def cpu(self):
        p = open("/proc/%d/stat" % self.proc.pid).read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")

    def signal(self, sig):
        if self.alive():
            os.kill(self.proc.pid, sig)

    def stop(self, timeout=60, check=True, ctx="shutdown"):
        """graceful stop; reports sanitizer findings. returns exit code or None if it had to be killed"""
        if self.proc is None:
            return None
        self.stopped = True
        if self.alive():
            os.kill(self.proc.pid, signal.SIGINT)
            try:
                self.proc.wait(timeout)
            except subprocess.TimeoutExpired:
                self.kill()
                if check:
                    self.verify(ctx, expect_alive=False)
                return None
        rc = self.proc.returncode
        if check:
            self.verify(ctx, expect_alive=False)
            if rc != 0 and not self.reported and not self.san_reports():
                self.chk.violation("exit:rc=%s:%s" % (rc, crash_key(self.logs())), "server %s exited with %s at %s: %s" % (self.name, rc, ctx, self.logs()[-1500:]),
                                   {"logs": self.logs()[-8000:]})
                self.reported = True
        return rc

    def kill(self):
        if self.proc is not None and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()


def crash_key(logs):
    m = re.findall(r"(assertion[^\n]{0,120}|Assertion[^\n]{0,120}|CRITICAL[^\n]{0,160}|Got unexpected[^\n]{0,100}|segfault[^\n]{0,80})", logs)
    return re.sub(r"0x[0-9a-f]+|\b\d+\b", "#", m[-1])[:160] if m else "?"


_FN = re.compile(r"^\s+#\d+ (?:0x[0-9a-f]+ in )?([^\s(]+)[^\n]*", re.M)


def _frames(txt):
    fr = []
    for m in re.finditer(r"^\s+#\d+ (?:0x[0-9a-f]+ in )?(\S+) ([^\n]*)", txt, re.M):
        fn, where = m.group(1), m.group(2)
        if "/repo/" in where or "../repo" in where or re.search(r"(src|include)/(main|common|modules|angel|lighttpd)", where):
            fr.append(fn)
    return fr


def split_reports(txt):
    """split a sanitizer log into (key, text) blocks. key: kind + innermost project frames"""
    out = []
    # ASan / TSan blocks
    parts = re.split(r"(?m)^(?==================================================================|==\d+==ERROR:|WARNING: ThreadSanitizer|[^\n]*runtime error: )", txt)
    for p in parts:
        if not p.strip() or not re.search(r"ERROR: |WARNING: ThreadSanitizer|runtime error:", p):
            continue
        m = re.search(r"runtime error: ([^\n]*)", p)
        if m:
            msg = re.sub(r"0x[0-9a-f]+|-?\b\d+\b", "#", m.group(1))
            loc = re.match(r"([^\n:]*):\d+", p.strip())
            fr = _frames(p)
            key = "ubsan:%s:%s:%s" % (msg[:80], os.path.basename(loc.group(1)) if loc else "?", ">".join(fr[:1]))
        else:
            m = re.search(r"(AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([^\n(]*)", p)
            kind = re.sub(r"0x[0-9a-f]+|\b\d+\b", "#", (m.group(2) if m else "?"))
            kind = kind.split(" on ")[0].strip()[:60]
            fr = _frames(p)
            key = "%s:%s:%s" % (m.group(1) if m else "san", kind, ">".join(fr[:3]))
        out.append((key, p))
    return out
