"""P31: configuration texts against a reference reader of the documented language."""
import glob
import os
import re
import subprocess

from vf import build, check, confref, http, server

PRINT = re.compile(r"config __print: ")
LINE = re.compile(rb"(?m)^(?:\[Invalid UTF-8\] )?(?:\d\d/\w\w\w/\d{4} \d\d:\d\d:\d\d \S+ |\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \S+: )(?=\(|debug|info|error|warning)")
SAN = re.compile(rb"AddressSanitizer|runtime error|LeakSanitizer|GLib-(CRITICAL|WARNING)|GLib.*CRITICAL|Assertion|assertion")


# ---------------------------------------------------------------- generator
class Gen:
    def __init__(self, r, env, angel=False, inc=None):
        self.r, self.env, self.angel = r, env, angel
        self.n = 0
        self.inc = inc if inc is not None else []
        self.kwords = confref.KEYWORDS_ANGEL if angel else confref.KEYWORDS
        self.names = ["a", "b", "e", "x1", "_u", "my.var", "android", "iffy", "nothing", "truely", "defaults", "include_x", "orx", "castx", "noneX",
                      "e1", "falsey", "local_", "globals", "elsewhere", "Setup", "TRUE", "sysx", "setups", "notx", "LongVariableName.with.dots_1"]

    # values: text plus the (python) value is NOT tracked here; the reference reader evaluates the text
    def ws(self, must=False):
        r = self.r
        k = r.random()
        if k < 0.72:
            return " " if must else r.choice(["", " "])
        if k < 0.8:
            return r.choice(["\t", "  ", "\n", "\r\n", " \t\n "])
        if k < 0.83:
            return " # comment ; } \" ' \\ {\n"
        return " "

    def integer(self):
        r = self.r
        v = r.choice([0, 1, 7, 8, 9, 10, 64, 255, 1000, 65535, 10 ** 6, r.randrange(1 << 31), r.randrange(1 << 40), confref.MAX, confref.MAX - r.randrange(20)]) if r.random() < 0.8 else r.randrange(1 << 63)
        k = r.random()
        if k < 0.2:
            t = "0" + oct(v)[2:] if v else r.choice(["0", "00"])
        elif k < 0.4:
            t = r.choice(["0x%x", "0x%X", "0x00%x"]) % v
        else:
            t = str(v)
        if r.random() < 0.3 and not (k >= 0.2 and k < 0.4 and False):
            u = r.choice(list(confref.UNIT) + ["bit"])
            f = confref.UNIT.get(u, 1)
            if v * f <= confref.MAX:
                if not (t.startswith("0x") and u[0] in "abcdef"):
                    t += u
            elif r.random() < 0.9:
                v = r.randrange(confref.MAX // f + 1)
                t = str(v) + u
        return t

    def string(self):
        r = self.r
        q = r.choice("\"\"\"''")
        strict = r.random() < 0.2
        out = []
        for _ in range(r.randrange(0, 9)):
            k = r.random()
            if k < 0.5:
                c = r.choice("abcXYZ019 _-/.:;,{}()[]=#$%&~^!<>*+?|@`")
                out.append(c)
            elif k < 0.55:
                out.append(r.choice(["\xc3\xa9", "\xe2\x82\xac", chr(r.randrange(0x80, 0x100))]))
            elif k < 0.6:
                out.append("'" if q == '"' else '"')
            elif k < 0.75:
                out.append("\\" + r.choice("trn\\\"'"))
            elif k < 0.85:
                out.append("\\x" + r.choice(["41", "7f", "e9", "0a", "22", "5C", "Ff", "27", "09", "20"]))
            elif k < 0.9 and not strict:
                out.append("\\" + r.choice("abcq019.$()[]%-"))
            else:
                out.append(r.choice(["word", "\t", "if", "/path/to", "%1"]))
        return ("e" if strict else "") + q + "".join(out) + q

    def tint(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.35:
            ints = [n for n, k in self.vars() if k == "int"]
            if ints and r.random() < 0.3:
                return r.choice(ints)
            t = str(r.randrange(1, 200)) if r.random() < (0.6 if d >= 3 else 0.93) else self.integer()
            return ("-" if r.random() < 0.15 else "") + t
        k = r.random()
        if k < 0.6:
            o = r.choice("++--**/")
            a, b = self.tint(d - 1), self.tint(d - 1)
            return a + self.ws() + o + self.ws() + b
        if k < 0.8:
            return "(" + self.ws() + self.tint(d - 1) + self.ws() + ")"
        if k < 0.88:
            return "-" + self.ws() + "(" + self.tint(d - 1) + ")"
        if k < 0.94:
            return self.cast("int") + self.ws() + r.choice(["true", "false", '"%d"' % r.randrange(-999, 9999), "(" + self.tint(d - 1) + ")"])
        return "- " + str(r.randrange(99))

    def cast(self, t):
        w = self.ws
        return "cast" + w() + "(" + w() + t + w() + ")"

    def tstr(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.5:
            s = [n for n, k in self.vars() if k == "str"]
            if s and r.random() < 0.3:
                return r.choice(s)
            if r.random() < 0.08:
                return "sys.env." + r.choice(list(self.env))
            return self.string()
        k = r.random()
        if k < 0.6:
            return self.tstr(d - 1) + self.ws() + "+" + self.ws() + self.tstr(d - 1)
        if k < 0.75:
            return "(" + self.tstr(d - 1) + ")"
        return self.cast("string") + self.ws() + "(" + self.tint(d - 1) + ")"

    def tbool(self, d):
        r = self.r
        if d > 0 and r.random() < 0.5:
            return r.choice(["!", "! ", "not ", "not\t", "!!"]) + self.tbool(d - 1)
        b = [n for n, k in self.vars() if k == "bool"]
        if b and r.random() < 0.3:
            return r.choice(b)
        return r.choice(["true", "false"])

    def tlist(self, d):
        r = self.r
        if d > 0 and r.random() < 0.2:
            return self.tlist(d - 1) + self.ws() + "+" + self.ws() + self.tlist(d - 1)
        v = [n for n, k in self.vars() if k == "list"]
        if v and r.random() < 0.2:
            return r.choice(v)
        n = r.randrange(0, 5)
        kv = r.random() < 0.35
        items = []
        for _ in range(n):
            x = self.tany(d - 1)
            if kv:
                x = x + self.ws(True) + "=>" + self.ws(True) + self.tany(d - 1)
            items.append(x)
        br = "()" if (n > 1 or (n == 1 and kv)) and r.random() < 0.3 else "[]"
        w = self.ws
        return br[0] + w() + (w() + "," + w()).join(items) + (w() + "," if n and r.random() < 0.15 else "") + w() + br[1]

    def tany(self, d):
        r = self.r
        k = r.random()
        if k < 0.35:
            return self.tint(min(d, 3))
        if k < 0.65:
            return self.tstr(min(d, 3))
        if k < 0.75:
            return self.tbool(min(d, 2))
        if k < 0.8:
            return r.choice(["none", "default"])
        if d <= 0:
            return self.integer()
        return self.tlist(d - 1)

    # -- variables known to the generator: name -> kind per scope; only used to pick likely valid operands
    def vars(self):
        seen = {}
        for s in self.scopes:
            seen.update(s)
        return list(seen.items())

    def prg(self, n):
        self.scopes = [{}]
        return self.block(n, 3, top=True)

    def pr(self):
        self.n += 1
        r = self.r
        kind, t = self.typed(3)
        out = "__print" + self.ws(True) + '"%d"' % self.n + self.ws() + "," + self.ws() + t
        while r.random() < 0.25:
            out += self.ws() + "," + self.ws() + self.typed(2)[1]
        return out + self.ws() + ";"

    def typed(self, d):
        r = self.r
        k = r.choice(["int", "int", "str", "str", "bool", "list"])
        t = {"int": self.tint, "str": self.tstr, "bool": self.tbool, "list": self.tlist}[k](d)
        return k, t

    def assign(self, how):
        k, t = self.typed(2)
        n = self.r.choice(self.names)
        s = (how + self.ws(True) if how else "") + n + self.ws() + "=" + self.ws() + t + self.ws() + ";"
        if how == "local":
            self.scopes[-1][n] = k
        elif how == "global":
            self.glob = True
            if not any(n in x for x in self.scopes):
                self.scopes[0].setdefault(n, k)
        else:
            for x in reversed(self.scopes):
                if n in x:
                    x[n] = k
                    break
            else:
                self.scopes[-1][n] = k
        return s

    def block(self, n, d, top=False):
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            if self.angel:
                out.append(self.pr() if k < 0.5 else self.assign(""))
            elif k < 0.35:
                out.append(self.pr())
            elif k < 0.6:
                out.append(self.assign(r.choice(["", "", "", "local", "global"])))
            elif k < 0.66:
                out.append("setup" + self.ws(True) + self.pr())
            elif k < 0.72:
                body = "".join(self.ws() + (self.pr() if r.random() < 0.6 else self.assign("")) for _ in range(r.randrange(0, 4)))
                out.append("setup" + self.ws() + "{" + body + self.ws() + "}")
            elif k < 0.8 and d > 0:
                nm = r.choice(self.names)
                self.scopes.append({})
                b = self.block(r.randrange(0, 4), d - 1)
                self.scopes.pop()
                s = nm + self.ws() + "=" + self.ws() + "{" + b + self.ws() + "}" + self.ws() + ";"
                for x in reversed(self.scopes):
                    if nm in x:
                        x[nm] = "action"
                        break
                else:
                    self.scopes[-1][nm] = "action"
                out.append(s)
            elif k < 0.85:
                acts = [n for n, kk in self.vars() if kk == "action"]
                out.append(r.choice(acts) + self.ws() + ";" if acts else "static;")
            elif k < 0.9 and self.inc:
                out.append(r.choice(self.inc)(self))
            elif d > 0:
                out.append(self.cond(d))
        return "".join(self.ws() + s for s in out) + (self.ws() if r.random() < 0.5 else "")

    def cond(self, d):
        r = self.r
        s = "if" + self.ws(True) + self.cexpr(2) + self.ws() + "{" + self.block(r.randrange(0, 3), d - 1) + self.ws() + "}"
        while r.random() < 0.3:
            s += self.ws() + "else" + self.ws(True) + "if" + self.ws(True) + self.cexpr(1) + self.ws() + "{" + self.block(r.randrange(0, 3), d - 1) + "}"
        if r.random() < 0.4:
            s += self.ws() + "else" + self.ws() + "{" + self.block(r.randrange(0, 3), d - 1) + "}"
        return s

    def cexpr(self, d):
        r = self.r
        k = r.random()
        if d > 0 and k < 0.4:
            return self.cexpr(d - 1) + self.ws(True) + r.choice(["and", "or"]) + self.ws(True) + self.cexpr(d - 1)
        if d > 0 and k < 0.6:
            return r.choice(["", "!", "not "]) + "(" + self.ws() + self.cexpr(d - 1) + self.ws() + ")"
        neg = r.choice(["", "", "!", "! ", "not "])
        ab = lambda v: v.replace("request.", r.choice(["req.", "request."])).replace("physical.", r.choice(["phys.", "physical."])).replace("response.", r.choice(["resp.", "response."]))
        k = r.random()
        if k < 0.3:
            return neg + ab(r.choice(sorted(confref.BOOLVARS)))
        if k < 0.5:
            return neg + ab(r.choice(sorted(confref.NUMVARS))) + self.ws(True) + r.choice(sorted(confref.NUMOPS)) + self.ws(True) + r.choice([self.integer(), "(1+2)", "-5", "100mbyte"])
        v = r.choice(sorted(confref.STRVARS | confref.KEYVARS))
        if v in confref.KEYVARS:
            v = v + '["%s"]' % r.choice(["Host", "X-A", "user-agent"])
            if v.startswith("request.environment") and r.random() < 0.5:
                v = v.replace("environment", "env")
        o = r.choice(sorted(confref.STROPS))
        val = self.string().replace("\\x00", "")
        if o in ("=~", "!~"):
            val = '"%s"' % r.choice(sorted(confref.REGEXES)).replace("\\", "\\\\")
        if v in ("request.localip", "request.remoteip") and r.random() < 0.5:
            o, val = r.choice(["=/", "!/"]), '"%s"' % r.choice(sorted(confref.CIDRS))
        return neg + ab(v) + self.ws() + o + self.ws() + val


TOK = re.compile(r"""\s+|\#[^\n]*\n|e?"(?:[^"\\]|\\.)*"|e?'(?:[^'\\]|\\.)*'|[A-Za-z_][A-Za-z0-9_.]*|[0-9][A-Za-z0-9]*|=>|==|!=|<=|>=|=~|!~|=\^|!\^|=\$|!\$|=/|!/|.""", re.S)
SPICE = [";", ",", "(", ")", "[", "]", "{", "}", "=", "=>", "==", "!", "-", "+", "*", "/", "if", "else", "and", "or", "not", "setup", "local", "global", "include",
         "default", "none", "true", "cast(int)", "cast(string)", "cast", "5", "0", "08", "0x", "1kbyte", "9223372036854775808", "99999999999999pbyte", '"s"', "e'\\q'", '"\\xZZ"',
         '"', "'", "zzunknown", "undefinedvar", "sys.env.ZZNOPE", "sys.zz", "sys.cwd", "#", "\n", "@", "\x7f", "&&", "||", "static", "__print", "=~", "<", "phys.exists", "req.path", "\xe9", "^", "$", "~"]


BIG = ["9223372036854775807", "(-9223372036854775807 - 1)", "9223372036854775806", "-9223372036854775807", "4294967296", "2147483648", "3037000500", "-3037000500", "3037000499",
       "0", "1", "-1", "2", "-2", "1152921504606846976", "8pbyte", "8191pbyte", "65535pbit", "1tbyte"]


def boundary(r):
    """one statement at the border between valid and invalid"""
    k = r.random()
    if k < 0.25:
        return "__print cast(int)(%s);" % r.choice(['"12a"', '""', '" 12"', '"+5"', '"-0"', '"9223372036854775807"', '"9223372036854775808"', '"-9223372036854775808"',
                                                    '"-9223372036854775809"', '"0x10"', '"010"', '"1.5"', '"12 "', '"--1"', "none", "[1]", "{}", "true", '"1" + "2"'])
    if k < 0.75:
        return "__print %s %s %s;" % (r.choice(BIG), r.choice("+-*/"), r.choice(BIG))
    return "__print %s;" % r.choice(['"a" + 1', 'true + true', '[1] - [1]', '[1] * [2]', '-"a"', "!1", "not none", '"a" - "b"', '"a" * "b"', "none + none", "1 + true", "1 / 0", "{} + {}", "1 and 2", "true and false",
                                     "-true", "[1] + 1", '1 + [1]', '9007199254740992pbyte', '8192pbyte', '8191pbyte', '65536pbit', '65535pbit', '106751991167301days', '106751991167300days',
                                     '07777777777', '0777777777777777777777', '01777777777777777777777', '0x7fffffffffffffff', '0x8000000000000000', '0xffffffffffffffff', '0x'])


def mutate(r, text):
    if r.random() < 0.2:
        cuts = [m.end() for m in re.finditer(";", text)]
        i = r.choice(cuts) if cuts else 0
        return text[:i] + "\n" + boundary(r) + "\n" + text[i:]
    toks = TOK.findall(text)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not toks:
            return text
        i = r.randrange(len(toks))
        k = r.random()
        if k < 0.3:
            del toks[i]
        elif k < 0.5:
            toks.insert(i, r.choice(SPICE))
        elif k < 0.7:
            toks[i] = r.choice(SPICE)
        elif k < 0.8:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k < 0.88:
            toks.insert(i, toks[r.randrange(len(toks))])
        elif k < 0.94:
            toks = toks[:i]
        else:
            t = toks[i]
            j = r.randrange(len(t))
            toks[i] = t[:j] + r.choice(["", chr(r.choice([0x22, 0x27, 0x5c, 0x3b, 0x20, 0x78, 0x30, 0x38, 0x65, 0x2d]))]) + t[j + 1:]
    return "".join(toks)


class Runner:
    def __init__(self, chk):
        self.chk = chk
        self.wbin, self.abin, self.mods = build.worker_bin(), build.angel_bin(), build.module_dir()
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "VFONE": "one value", "VF_TWO": "2", "VF.x": "a=b;c",
                    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:log_path=stderr:allocator_may_return_null=1",
                    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0", "LC_ALL": "C.UTF-8"}

    def worker(self, path, extra=(), timeout=60, user=None):
        cmd = [self.wbin, "-m", self.mods, "-c", path, *extra]
        return self.call(cmd, os.path.dirname(path), timeout, user)

    def angel(self, path, timeout=60):
        return self.call([self.abin, "-o", "-m", self.mods, "-c", path], os.path.dirname(path), timeout)

    def call(self, cmd, cwd, timeout, user=None):
        kw = {}
        if user is not None:
            kw = dict(user=user, group=user, extra_groups=[])
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env, cwd=cwd, **kw)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            rc = None
        msgs = []
        cuts = [m for m in LINE.finditer(out)]
        for i, m in enumerate(cuts):
            e = cuts[i + 1].start() if i + 1 < len(cuts) else len(out)
            msgs.append(out[m.end():e].decode("latin-1"))
        prints = []
        for m in msgs:
            x = PRINT.search(m)
            if x and "debug" in m[:x.start()]:
                v = m[x.end():]
                prints.append(v[:-1] if v.endswith("\n") else v)   # bytes as latin-1
        return rc, out, msgs, prints


def logged(v):
    """what glib makes of a message on stderr"""
    raw = v.encode("latin-1")
    try:
        return "".join(c if ord(c) < 0x80 else "?" for c in raw.decode("utf-8"))
    except UnicodeDecodeError:
        return "".join("\\x%02x" % ord(c) if (ord(c) < 0x20 and c not in "\n\t" and not (c == "\r" and v[i + 1:i + 2] == "\n")) or ord(c) >= 0x7f else c
                       for i, c in enumerate(v))


def judge(kind, rc, out, prints, want, text, end_error=None):
    """-> None or (key, what)"""
    if rc is None:
        return ("hang", "reading the configuration did not end")
    if rc < 0 or rc == 99 or SAN.search(out):
        m = SAN.search(out)
        return ("crash", "reading the configuration crashed (status %r): %s" % (rc, out[m.start():m.start() + 600].decode("latin-1") if m else out[-300:].decode("latin-1")))
    st, why, wp = want
    if st == "open":
        return None
    if st == "ok":
        if end_error is None and rc != 0 or end_error is not None and not (rc != 0 and end_error.encode() in out):
            return ("refused", "a valid configuration was refused: %s" % out[-300:].decode("latin-1"))
        if len(prints) != len(wp):
            return ("prints", "expected %d printed values, saw %d" % (len(wp), len(prints)))
        for i, (a, b) in enumerate(zip(prints, wp)):
            if b is not None and a != (logged(b) if kind == "main" else b):
                return ("value", "value number %d was read as %r instead of %r" % (i, a[:300], b[:300]))
        return None
    if rc == 0:
        return ("accepted", "an invalid configuration (%s) was accepted" % why)
    if b"rror" not in out:
        return ("silent", "an invalid configuration (%s) was refused without an error message" % why)
    if end_error is not None and end_error.encode() in out:
        return ("accepted", "an invalid configuration (%s) was accepted" % why)
    return None


def minimize(text, bad, r, budget=60):
    toks = TOK.findall(text)
    n = max(1, len(toks) // 2)
    while n >= 1 and budget > 0:
        i = 0
        hit = False
        while i < len(toks) and budget > 0:
            cand = toks[:i] + toks[i + n:]
            budget -= 1
            if bad("".join(cand)):
                toks = cand
                hit = True
            else:
                i += n
        if not hit or n == 1:
            n //= 2
    return "".join(toks)




HEAD = 'setup log [default => "stderr"];\n'


def run(chk):
    build.build("asan")
    rn = Runner(chk)
    refenv = {k: v for k, v in rn.env.items()}
    del refenv["ASAN_OPTIONS"]
    base = os.path.join(chk.scratch, "conf")
    os.makedirs(base)

    def one(i):
        r = chk.rng("prog", i)
        d = os.path.join(base, "p%d" % i)
        os.makedirs(os.path.join(d, "inc"))
        angel = i % 6 == 5
        envnames = {"VFONE": 1, "VF_TWO": 1, "VF.x": 1}
        files, shell, lua, inc = {}, {}, set(), []
        if not angel and r.random() < 0.6:
            for k in range(r.randrange(1, 4)):
                g = Gen(r, envnames)
                g.n = 1000 * (k + 1)
                g.scopes = [{}]
                p = os.path.join(d, "inc", r.choice(["a%d.conf", "b%d.conf", "c%d.txt"]) % k)
                t = g.block(r.randrange(1, 4), 1)
                if r.random() < 0.3:
                    t += "# comment without line end"
                files[p] = t
            lua_p = os.path.join(d, "x.lua")
            with open(lua_p, "w") as f:
                f.write("-- nothing\n")
            lua.add(lua_p)
            names = sorted(files)
            for p in names:
                shell["/bin/cat " + p] = files[p]
                inc.append(lambda g, p=p: "include" + g.ws(True) + '"%s"' % p + g.ws() + ";")
            if len(names) >= 1:
                # one matching file only: the documentation does not define an order
                p = names[0]
                bn = os.path.basename(p)
                inc.append(lambda g, p=p, bn=bn: 'include "%s/%s";' % (os.path.dirname(p), g.r.choice([bn[:1] + "?" + bn[2:], bn[:2] + "*", "*" + bn[:2] + ".*"])))
                inc.append(lambda g, p=p: 'include_shell "/bin/cat %s";' % p)
                inc.append(lambda g: 'include "%s/inc/*.none";' % d)
            inc.append(lambda g: 'include_lua "%s";' % lua_p)
            for p, t in files.items():
                with open(p, "w", encoding="latin-1") as f:
                    f.write(t)
        g = Gen(r, envnames, angel, inc)
        text = g.prg(r.randrange(4, 18))
        chk.count("programs", "angel" if angel else "main")


        def evaluate(t):
            if angel:
                full, end = t + "\n zz_end_of_program;\n", "Unknown item 'zz_end_of_program'"
            else:
                full, end = HEAD + t, None
            rd = confref.Reader(t, files, refenv, angel=angel, shell=shell, lua=lua, cwd=d)
            want = rd.run()
            path = os.path.join(d, "main.conf")
            with open(path, "w", encoding="latin-1", newline="") as f:
                f.write(full)
            rc, out, msgs, prints = rn.angel(path) if angel else rn.worker(path, ["-t"])
            return judge("angel" if angel else "main", rc, out, prints, want, t, end), want, rc, out, prints

        for m in range(1 + chk.muts):
            t = text if m == 0 else mutate(r, text)
            if m and ("include_shell" in t and not inc):
                continue
            bad, want, rc, out, prints = evaluate(t)
            chk.ok(1, kind=("angel" if angel else "main") + ("" if m == 0 else "-mutant"), verdict=want[0])
            if want[0] == "ok":
                chk.count("values", "compared", len(want[2]))
            elif want[0] == "error":
                chk.count("invalid because", re.sub(r"[\"'(].*|[a-z]*\d.*", "", want[1])[:40])
            if m == 0 and want[0] != "ok":
                chk.count("generated", want[0])
            if bad:
                small = minimize(t, lambda x: (lambda e: e[0] is not None and e[0][0] == bad[0])(evaluate(x)), r)
                bad2, want, rc, out, prints = evaluate(small)
                bad2 = bad2 or bad
                chk.violation(bad2[0], "%s (%s configuration): %s" % (bad2[1], "angel" if angel else "worker", small[:400]),
                              {"text": small, "original": t, "want": repr(want), "rc": rc, "out": out[-1500:].decode("latin-1"), "prints": prints[-10:]})
                return

    def arith(i):
        """all operations on numbers at the edges of the range: valid ones in one configuration, the others one by one"""
        angel, op = divmod(i, 4)
        good, bad = [], []
        for a in BIG:
            for b in BIG:
                t = "__print %s %s %s;" % (a, "+-*/"[op], b)
                (good if confref.Reader(t, {}, refenv, angel=bool(angel)).run()[0] == "ok" else bad).append(t)
        r = chk.rng("arith", i)
        r.shuffle(bad)
        path = os.path.join(base, "arith%d.conf" % i)
        for t in ["\n".join(good) + "\n"] + bad[:chk.n(12)]:
            want = confref.Reader(t, {}, refenv, angel=bool(angel)).run()
            with open(path, "w") as f:
                f.write(t + "\n zz_end_of_program;\n" if angel else HEAD + t)
            rc, out, msgs, prints = rn.angel(path) if angel else rn.worker(path, ["-t"])
            bad1 = judge("angel" if angel else "main", rc, out, prints, want, t, "Unknown item 'zz_end_of_program'" if angel else None)
            chk.ok(1, kind="arith", verdict=want[0])
            if bad1:
                chk.violation(bad1[0], "%s (%s configuration): %s" % (bad1[1], "angel" if angel else "worker", t[:200]), {"text": t, "rc": rc, "out": out[-1500:].decode("latin-1")})
                return

    def included(i):
        """files that include themselves or each other"""
        r = chk.rng("self", i)
        d = os.path.join(base, "s%d" % i)
        os.makedirs(d)
        a, b2 = os.path.join(d, "a.conf"), os.path.join(d, "b.conf")
        how = i % 5
        depth = r.choice([1, 2, 5, 20, 50])
        ok = False
        if how == 0:
            ta, tb = HEAD + 'include "%s";' % a, ""
        elif how == 1:
            ta, tb = HEAD + '__print 1; x = { include "%s"; };' % b2, '__print 2; if phys.exists { include "%s/%s"; }' % (d, r.choice(["a*", "?.conf", "*.conf"]))
        elif how == 2:
            ta, tb = HEAD + 'include_shell "/bin/cat %s";' % a, ""
        elif how == 3:
            ta, tb = HEAD + 'setup { x = 1; } include "%s/b.c?nf";' % d, 'include_shell "/bin/cat %s";' % a
        else:
            # a long but finite chain is fine
            ok = True
            ta, tb = HEAD + 'include "%s/c0.conf";' % d, ""
            for k in range(depth):
                with open(os.path.join(d, "c%d.conf" % k), "w") as f:
                    f.write('local v = %d; __print v;' % k + ('include "%s/c%d.conf";' % (d, k + 1) if k + 1 < depth else "") + "__print v;")
        for p, t in ((a, ta), (b2, tb)):
            with open(p, "w") as f:
                f.write(t)
        rc, out, msgs, prints = rn.worker(a, ["-t"])
        want = ("ok", None, ["(%d)" % k for k in list(range(depth)) + list(reversed(range(depth)))]) if ok else ("error", "endless include", [])
        bad = judge("main", rc, out, prints, want, ta)
        chk.ok(1, kind="include chains", verdict=want[0])
        if bad:
            chk.violation("include-" + bad[0], bad[1] + ": " + ta, {"a": ta, "b": tb, "rc": rc, "out": out[-1500:].decode("latin-1")})

    def startup(i):
        """without -t: the process ends with an error status and never answers"""
        r = chk.rng("startup", i)
        d = os.path.join(base, "u%d" % i)
        os.makedirs(d)
        g = Gen(r, {"VFONE": 1, "VF_TWO": 1, "VF.x": 1})
        for _ in range(50):
            t = g.prg(r.randrange(2, 8))
            if confref.Reader(t, {}, refenv, cwd=d).run()[0] != "ok":
                continue
            t = mutate(r, t)
            if "include" not in t and confref.Reader(t, {}, refenv, cwd=d).run()[0] == "error":
                break
        else:
            return
        port = server.free_port()
        path = os.path.join(d, "main.conf")
        with open(path, "w", encoding="latin-1", newline="") as f:
            f.write('setup { listen "127.0.0.1:%d"; workers %d; }\n' % (port, r.randrange(1, 4)) + t)
        rc, out, msgs, prints = rn.worker(path, timeout=40)
        chk.ok(1, kind="start refused")
        if rc is None:
            chk.violation("started", "the server started with an invalid configuration: " + t[:300], {"text": t, "out": out[-800:].decode("latin-1")})
        elif rc == 0 or rc < 0 or b"rror" not in out:
            chk.violation("startstatus", "start with an invalid configuration ended with status %r: %s" % (rc, t[:300]), {"text": t, "out": out[-800:].decode("latin-1")})

    corpus = doc_corpus()
    mods = "setup module_load [%s];\n" % ", ".join('"%s"' % m for m in ALLMODS)

    def fuzz(i):
        r = chk.rng("fuzz", i)
        d = os.path.join(base, "f%d" % i)
        os.makedirs(d)
        os.chmod(d, 0o777)
        t = r.choice(corpus)
        if i < len(corpus):
            t = corpus[i]
        elif r.random() < 0.4:
            t = mutate(r, t)
        elif r.random() < 0.4:
            u = r.choice(corpus)
            a, c = TOK.findall(t), TOK.findall(u)
            x, y = r.randrange(len(a) + 1), r.randrange(len(c) + 1)
            t = "".join(a[:x] + c[y:y + r.randrange(1, 40)] + a[x:])
        else:
            bb = list(t)
            for _ in range(r.choice([1, 2, 5, 20])):
                if bb:
                    x = r.randrange(len(bb))
                    k = r.random()
                    if k < 0.4:
                        bb[x] = chr(r.randrange(256))
                    elif k < 0.7:
                        del bb[x:x + r.randrange(1, 9)]
                    else:
                        bb[x:x] = list(r.choice(SPICE))
            t = "".join(bb)
        if "include_shell" in t and i >= len(corpus) or re.search(r"/(etc|var|home|srv|run|usr)/\S*\*", t) and i >= len(corpus):
            return
        path = os.path.join(d, "main.conf")
        with open(path, "w", encoding="latin-1", newline="") as f:
            f.write(mods + t)
        rc, out, msgs, prints = rn.worker(path, ["-t"], user=65534)
        chk.ok(1, kind="examples" if i < len(corpus) else "example mutants", status=str(rc))
        bad = judge("main", rc, out, prints, ("open", "", []), t)
        if bad:
            def again(x):
                with open(path, "w", encoding="latin-1", newline="") as f:
                    f.write(mods + x)
                rc, out, msgs, prints = rn.worker(path, ["-t"], user=65534)
                e = judge("main", rc, out, prints, ("open", "", []), x)
                return e is not None and e[0] == bad[0]
            small = minimize(t, again, r)
            chk.violation("fuzz-" + bad[0], bad[1][:500] + ": " + small[:300], {"text": small, "original": t, "rc": rc, "out": out[-3000:].decode("latin-1")})

    def served(i):
        r = chk.rng("served", i)
        d = os.path.join(base, "v%d" % i)
        os.makedirs(d)
        g = Served(r, d)
        text = g.top()
        srv = server.Server(chk, text, workers=r.randrange(1, 3), name="p31s%d" % i).start()
        try:
            for path in ["/", "/a", "/b", "/ab", "/c", "/abc/x"]:
                for method in ("GET", "POST"):
                    hd = [("X-A", r.choice(["1", "2", "3"]))]
                    want = g.execute(path, method, dict(hd))
                    c = http.Conn(port=srv.port)
                    c.send(http.build_request(method, path, hd, b"" if method == "POST" else None))
                    resp = c.read_response(method)
                    c.close()
                    got = resp.body.decode("latin-1")
                    chk.ok(1, kind="served", length=min(9, want.count(".")))
                    if got != want:
                        chk.violation("served", "request %s %s ran the statements %r instead of %r" % (method, path, got, want),
                                      {"config": text, "files": g.files, "request": [method, path, hd]})
                        return
            srv.verify("served")
        finally:
            srv.stop()

    chk.muts = 5
    parts = [("prog", one, chk.n(1000)), ("arith", arith, 8), ("included", included, chk.n(30)), ("startup", startup, chk.n(40)), ("fuzz", fuzz, chk.n(len(corpus) + 900)), ("served", served, chk.n(40))]
    for name, fn, n in parts:
        if chk.want(name) and not chk.violations:
            check.parallel(8, fn, list(range(n)))


ALLMODS = ["mod_access", "mod_accesslog", "mod_auth", "mod_balance", "mod_cache_disk_etag", "mod_debug", "mod_deflate", "mod_dirlist", "mod_expire",
           "mod_fastcgi", "mod_flv", "mod_fortune", "mod_gnutls", "mod_limit", "mod_lua", "mod_memcached", "mod_openssl", "mod_progress", "mod_proxy",
           "mod_redirect", "mod_rewrite", "mod_scgi", "mod_status", "mod_throttle", "mod_userdir", "mod_vhost"]


def doc_corpus():
    out = []
    for f in sorted(glob.glob(os.path.join(build.REPO, "doc", "*.xml"))):
        with open(f, encoding="latin-1") as h:
            for m in re.finditer(r"<config>(.*?)</config>", h.read(), re.S):
                t = m.group(1).replace("<![CDATA[", "").replace("]]>", "")
                out.append(t.replace("&gt;", ">").replace("&lt;", "<").replace("&amp;", "&"))
    with open(os.path.join(build.REPO, "contrib", "lighttpd.conf"), encoding="latin-1") as h:
        out.append(h.read())
    return [t for t in out if "max_core_file_size" not in t]


class Served:
    """configurations whose statements leave a trace in the response; text and run time tree grow together"""

    def __init__(self, r, d):
        self.r, self.d = r, d
        self.n = 0
        self.files = {}
        self.scopes = [{}]
        self.globals = {}

    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return self.globals.get(n)

    def set(self, n, v, how):
        if how == "global":
            self.globals[n] = v
        elif how == "local":
            self.scopes[-1][n] = v
        else:
            for s in reversed(self.scopes):
                if n in s:
                    s[n] = v
                    return
            if n in self.globals:
                self.globals[n] = v
            else:
                self.scopes[-1][n] = v

    def names(self, kind):
        out = set()
        for s in self.scopes + [self.globals]:
            out.update(s)
        return sorted(n for n in out if isinstance(self.lookup(n), kind))

    def block(self, n, d):
        r = self.r
        text, tree = [], []
        for _ in range(n):
            k = r.random()
            strs, acts = self.names(str), self.names(list)
            if k < 0.3:
                self.n += 1
                if strs and r.random() < 0.5:
                    v = r.choice(strs)
                    text.append('env.set "T" => "%%{req.env[T]}.%d" + %s;' % (self.n, v))
                    tree.append(("t", ".%d" % self.n + self.lookup(v)))
                else:
                    text.append('env.set "T" => "%%{req.env[T]}.%d";' % self.n)
                    tree.append(("t", ".%d" % self.n))
            elif k < 0.45:
                nm = r.choice(["sa", "sb", "sc"])
                how = r.choice(["", "", "local", "global"])
                val = r.choice("abcdef")
                if nm in strs and r.random() < 0.5 and len(self.lookup(nm)) < 12:
                    text.append('%s %s = %s + "%s";' % (how, nm, nm, val))
                    val = self.lookup(nm) + val
                else:
                    text.append('%s %s = "%s";' % (how, nm, val))
                self.set(nm, val, how)
            elif k < 0.6 and d > 0:
                nm = r.choice(["xa", "xb", "xc"])
                how = r.choice(["", "", "local", "global"])
                self.scopes.append({})
                t, tr = self.block(r.randrange(0, 4), d - 1)
                self.scopes.pop()
                text.append("%s %s = {\n%s\n};" % (how, nm, t))
                self.set(nm, tr, how)
            elif k < 0.72 and acts:
                nm = r.choice(acts)
                text.append(nm + ";")
                tree.append(("b", self.lookup(nm)))
            elif k < 0.82 and d > 0:
                self.scopes.append({})
                t, tr = self.block(r.randrange(1, 4), d - 1)
                self.scopes.pop()
                p = os.path.join(self.d, "i%d.conf" % len(self.files))
                self.files[p] = t
                with open(p, "w") as f:
                    f.write(t)
                text.append(r.choice(['include "%s";' % p, 'include_shell "/bin/cat %s";' % p, 'include "%s";' % (p[:-5] + ".con?")]))
                tree.append(("b", tr))
            elif d > 0:
                chain, t = [], []
                while True:
                    ct, ce = self.cond(2)
                    bt, btr = self.block(r.randrange(0, 3), d - 1)
                    t.append("if %s {\n%s\n}" % (ct, bt))
                    chain.append((ce, btr))
                    if r.random() < 0.6:
                        break
                s = " else ".join(t)
                if r.random() < 0.5:
                    bt, btr = self.block(r.randrange(0, 3), d - 1)
                    s += " else {\n%s\n}" % bt
                    chain.append((lambda q: True, btr))
                text.append(s)
                tree.append(("c", chain))
        return "\n".join(text), tree

    def cond(self, d):
        r = self.r
        k = r.random()
        if d and k < 0.5:
            at, ae = self.cond(d - 1)
            bt, be = self.cond(d - 1)
            o = r.choice(["and", "or"])
            f = (lambda q: ae(q) and be(q)) if o == "and" else (lambda q: ae(q) or be(q))
            neg = r.choice(["", "!"])
            return "%s(%s %s %s)" % (neg, at, o, bt), (f if not neg else lambda q: not f(q))
        p = r.choice(["/a", "/b", "/ab", "/c", "/"])
        k = r.randrange(4)
        if k == 0:
            return 'req.path == "%s"' % p, lambda q: q[0] == p
        if k == 1:
            return 'request.path =^ "%s"' % p, lambda q: q[0].startswith(p)
        if k == 2:
            return 'req.header["x-a"] != "%s"' % p[-1], lambda q: q[2]["X-A"] != p[-1]
        return 'req.method == "POST"', lambda q: q[1] == "POST"

    def top(self):
        t, self.tree = self.block(self.r.randrange(6, 14), 3)
        return 'env.set "T" => "";\n%s\nrespond 200 => "%%{req.env[T]}";\n' % t

    def execute(self, path, method, headers):
        out = []

        def go(tree):
            for x in tree:
                if x[0] == "t":
                    out.append(x[1])
                elif x[0] == "b":
                    go(x[1])
                else:
                    for ce, b in x[1]:
                        if ce((path, method, headers)):
                            go(b)
                            break
        go(self.tree)
        return "".join(out)


if __name__ == "__main__":
    c = check.Check("P31", rule="every configuration text is read with the documented meaning or refused with an error; nothing crashes the parsers")
    check.run(c, run, min_evals=100)
