"""Check driver: seeds, evidence, violations, known findings, exit codes.

exit 0: property held on everything explored
exit 1: + 'VIOLATION property=<id> replay=<path>'
exit 2: the check itself could not do its work (harness error)"""
import argparse
import json
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time
import traceback

from . import build

VERIF = build.VERIF


_current = None


class HarnessError(Exception):
    pass


def _trunc(o, n=2000):
    if isinstance(o, bytes):
        o = o.decode("latin-1")
    if isinstance(o, str):
        return o if len(o) <= n else o[:n] + "...[%d]" % len(o)
    if isinstance(o, dict):
        return {str(k): _trunc(v, n) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_trunc(v, n) for v in list(o)[:200]]
    if isinstance(o, (int, float, bool)) or o is None:
        return o
    return _trunc(repr(o), n)


class Check:
    def __init__(self, prop, level="exploration", rule="", assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--scale", type=float, default=None)
        ap.add_argument("--only", default=None, help="run only the named sub-workload (debugging)")
        ap.add_argument("--keep", action="store_true")
        self.args = ap.parse_args()
        self.prop = prop
        self.tier = self.args.tier
        self.seed = self.args.seed
        self.scale = self.args.scale if self.args.scale is not None else (1.0 if self.tier == "quick" else 8.0)
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.inconclusive = []
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop.lower(), dir=os.environ.get("TMPDIR", "/tmp"))
        os.chmod(self.scratch, 0o755)
        self.known = self._load_known()
        self.cleanups = []
        self.servers = []
        self.finishing = threading.Lock()
        global _current
        _current = self

    # ---- randomness
    def rng(self, *key):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, key))))

    def n(self, quick, cap=None):
        v = max(1, int(quick * self.scale))
        return min(v, cap) if cap else v

    def want(self, name):
        return self.args.only is None or self.args.only == name

    # ---- observations
    def ok(self, n=1, **classes):
        """n oracle evaluations that held; classes describe what was observed"""
        with self.lock:
            self.evaluations += n
            for k, v in classes.items():
                self.distinct.add("%s=%s" % (k, v))
                self.counters.setdefault(k, {}).setdefault(str(v), 0)
                self.counters[k][str(v)] += n

    def count(self, k, v, n=1):
        with self.lock:
            self.counters.setdefault(k, {}).setdefault(str(v), 0)
            self.counters[k][str(v)] += n
            self.distinct.add("%s=%s" % (k, v))

    def sample(self, s, cap=12):
        with self.lock:
            if len(self.samples) < cap:
                self.samples.append(_trunc(s, 600))

    def _load_known(self):
        p = os.path.join(VERIF, "known_findings.json")
        try:
            d = json.load(open(p))
        except FileNotFoundError:
            return []
        return [k for k in d.get("findings", []) if k["property"] == self.prop]

    def violation(self, key, what, witness=None):
        """key: stable identification of the failing site/input."""
        key = str(key)
        with self.lock:
            for k in self.known:
                if re.fullmatch(k["key"], key):
                    self.known_hits.setdefault(k["key"], (k["what"], 0))
                    w, c = self.known_hits[k["key"]]
                    self.known_hits[k["key"]] = (w, c + 1)
                    return
            if len(self.violations) >= 25:
                self.violations.append((key, what, None))
                return
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.seed, len(self.violations)))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "key": key,
                           "what": _trunc(what, 4000), "witness": _trunc(witness, 20000),
                           "replay_cmd": "VERIF_SEED=%d /verif/run.sh %s %s" % (self.seed, self.prop, self.tier)}, f, indent=1)
            self.violations.append((key, what, path))
            sys.stderr.write("violation %s: %s\n" % (key, _trunc(what, 1500)))

    def inconcl(self, what):
        with self.lock:
            self.inconclusive.append(_trunc(what, 500))
            sys.stderr.write("inconclusive: %s\n" % _trunc(what, 500))

    def cleanup(self, fn):
        self.cleanups.append(fn)

    def _cleanup(self):
        for fn in reversed(self.cleanups):
            try:
                fn()
            except Exception:
                traceback.print_exc()
        if not self.args.keep:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def evidence(self):
        ed = os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        counters = {k: dict(sorted(v.items(), key=lambda kv: -kv[1])[:60]) for k, v in self.counters.items()}
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
                "rule": self.rule, "samples": self.samples or ["-"], "observed": counters,
                "inconclusive": len(self.inconclusive), "inconclusive_samples": self.inconclusive[:5],
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
            "assumptions": self.assumptions,
        }
        tmp = os.path.join(ed, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ed, "%s.json" % self.prop))

    def finish(self, min_evals=1):
        if not self.finishing.acquire(False):
            time.sleep(3600)     # the other thread ends the process
        self._cleanup()
        if len(self.inconclusive) > max(8, 0.03 * self.evaluations) and not self.violations:
            # single observations that failed once and not on repetition; in this number they are schedule-dependent failures
            self.violation("unstable", "%d observations failed on their first execution, e.g. %s" % (len(self.inconclusive), self.inconclusive[:3]), self.inconclusive[:50])
        for key, (what, c) in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (self.prop, what, c))
        self.evidence()
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs" % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.violations),
            len(self.inconclusive), time.time() - self.t0))
        sys.stdout.flush()
        if self.violations:
            for key, what, path in self.violations[:10]:
                if path:
                    print("VIOLATION property=%s replay=%s" % (self.prop, path))
                    print("  %s: %s" % (key, _trunc(what, 300)))
            sys.stdout.flush()
            os._exit(1)
        if self.evaluations < min_evals:
            print("HARNESS: only %d evaluations (< %d): nothing decided" % (self.evaluations, min_evals))
            sys.stdout.flush()
            os._exit(2)
        sys.stdout.flush()
        os._exit(0)


def _hung(srv):
    """a server some worker of which does not even refuse a malformed request"""
    import socket
    cs = []
    for _ in range(12):
        try:
            c = socket.create_connection(("127.0.0.1", srv.port), 20)
            c.sendall(b"BAD\r\n\r\n")
            cs.append(c)
        except OSError:
            pass
    bad = 0
    end = time.time() + 30
    for c in cs:
        try:
            c.settimeout(max(0.1, end - time.time()))
            c.recv(1)
        except socket.timeout:
            bad += 1
        except OSError:
            pass
        c.close()
    return bad


def _watchdog(check):
    """a run that takes many times longer than usual still has to end with an answer"""
    def left(t):
        d = check.t0 + t - time.time()
        if d > 0:
            time.sleep(d)
    try:
        for t in (240, 300, 360, 420, 480, 540):
            left(t)
            if check.violations:
                check.finish(0)
        for srv in list(check.servers):
            try:
                if srv.proc is not None and not srv.stopped and srv.alive() and getattr(srv, "port", None):
                    bad = _hung(srv)
                    if bad:
                        check.violation("hung", "the server does not answer anymore (%d of 12 malformed requests got no answer within 30 s)" % bad, {"log": srv.logs()[-3000:]})
                        check.finish(0)
            except Exception:
                traceback.print_exc()
        left(780)
        check.inconcl("run was not finished after %d s" % (time.time() - check.t0))
        check.finish(0)
    except Exception:
        traceback.print_exc()


def run(check, body, min_evals=1):
    if check.tier == "quick":
        threading.Thread(target=_watchdog, args=(check,), daemon=True).start()
    try:
        body(check)
    except Exception as e:
        if check.finishing.locked():
            time.sleep(3600)
        traceback.print_exc()
        for srv in check.servers:
            # did the server die under the workload?
            try:
                if srv.proc is not None and not srv.stopped:
                    srv.verify("workload")
            except Exception:
                traceback.print_exc()
        from . import http, server
        if not check.violations and isinstance(e, (http.Timeout, http.Closed, http.ProtoError, server.ServerDied)):
            # the server did not do what every valid workload relies on (start, answer)
            check.violation("unanswered:%s" % type(e).__name__, "the server did not start or answer: %s" % e, {"trace": traceback.format_exc()})
        if check.violations:
            # what was observed before the harness broke still counts
            check.finish(0)
        try:
            check._cleanup()
        except Exception:
            pass
        print("HARNESS-ERROR: %s" % e)
        sys.stdout.flush()
        os._exit(2)
    check.finish(min_evals)


def parallel(n, fn, items):
    """run fn(item) over items with n threads; first exception is re-raised"""
    it = iter(items)
    lk = threading.Lock()
    errs = []

    def w():
        while not errs:
            if _current is not None and (len(_current.violations) >= 12 or time.time() - _current.t0 > (450 if _current.tier == "quick" else 5400)):
                return      # decided, or out of time
            with lk:
                try:
                    x = next(it)
                except StopIteration:
                    return
            try:
                fn(x)
            except Exception as e:
                traceback.print_exc()
                errs.append(e)
                return
    ts = [threading.Thread(target=w, daemon=True) for _ in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
