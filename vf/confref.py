"""Reference reader of the configuration language, written from doc/core_config.xml.

Reader(text, files).run() returns ("ok", prints) | ("error", why) | raises nothing; texts whose meaning
the documentation leaves open give ("open", why)."""
import re

KEYWORDS = {"and", "default", "cast", "else", "false", "global", "if", "include", "include_lua", "include_shell",
            "local", "none", "not", "or", "setup", "true"}
KEYWORDS_ANGEL = {"default", "cast", "false", "none", "not", "true"}
UNIT = {"byte": 1, "kbyte": 1 << 10, "mbyte": 1 << 20, "gbyte": 1 << 30, "tbyte": 1 << 40, "pbyte": 1 << 50,
        "kbit": 1 << 7, "mbit": 1 << 17, "gbit": 1 << 27, "tbit": 1 << 37, "pbit": 1 << 47,
        "sec": 1, "min": 60, "hours": 3600, "days": 86400}
MAX = (1 << 63) - 1
MIN = -(1 << 63)
BOOLVARS = {"request.is_handled", "physical.exists", "physical.is_dir", "physical.is_file"}
NUMVARS = {"request.localport", "request.remoteport", "request.length", "physical.size", "response.status"}
STRVARS = {"request.localip", "request.remoteip", "request.path", "request.raw_path", "request.host", "request.scheme",
           "request.query", "request.method", "physical.path", "physical.docroot", "physical.pathinfo"}
KEYVARS = {"request.header", "request.environment", "response.header"}
STROPS = {"==", "!=", "=~", "!~", "=^", "!^", "=$", "!$"}
NUMOPS = {"==", "!=", "<", "<=", ">", ">="}
IPOPS = {"=/", "!/"}
REGEXES = {"^/a", "x$", "(a|b)+", "[0-9]{2}", "\\.txt$", "(?i)^/A"}
CIDRS = {"10.0.0.0/8", "127.0.0.1", "::1/128", "192.168.1.0/24"}


class Err(Exception):
    pass


class Open(Exception):
    pass


class Action:
    pass


ACTION = Action()
NONE = None


def show(v):
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, Action):
        return "<action>"
    return "(" + ", ".join(show(x) for x in v) + ")"


OPS = sorted(["+", "-", "*", "/", "!", "==", "!=", "=^", "!^", "=$", "!$", "<", "<=", ">", ">=", "=~", "!~", "=/", "!/", "=", "=>"], key=len, reverse=True)
OPS_ANGEL = sorted(["+", "-", "*", "/", "!", "=", "=>"], key=len, reverse=True)
NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_.]*")
NOISE = re.compile(r"(?:[ \t\r\n]|#[^\r\n]*(?:[\r\n]|\Z))*")
INT = re.compile(r"0x[0-9a-fA-F]+|[0-9]+")
CAST = re.compile(r"cast(?:[ \t\r\n]|#[^\r\n]*[\r\n])*\((?:[ \t\r\n]|#[^\r\n]*[\r\n])*(int|string)(?:[ \t\r\n]|#[^\r\n]*[\r\n])*\)")
SEP = set("\t \r\n#+-*/=<>!^$~;,(){}[]\"'")


class Lexer:
    def __init__(self, text, angel):
        self.t, self.i, self.angel = text, 0, angel
        self.back = []

    def next(self):
        if self.back:
            return self.back.pop()
        t = self.t
        i = NOISE.match(t, self.i).end()
        if i >= len(t):
            self.i = i
            return ("eof", None)
        c = t[i]
        if c in "\"'" or (c == "e" and i + 1 < len(t) and t[i + 1] in "\"'"):
            return self.string(i)
        m = CAST.match(t, i)
        if m:
            self.i = m.end()
            return ("cast", m.group(1))
        m = NAME.match(t, i)
        if m:
            self.i = m.end()
            if self.i < len(t) and t[self.i] not in SEP:
                raise Err("bad character after name")
            n = m.group()
            if n in (KEYWORDS_ANGEL if self.angel else KEYWORDS):
                if n == "cast":
                    raise Err("cast without type")
                return ("kw", n)
            return ("name", n)
        m = INT.match(t, i)
        if m:
            s = m.group()
            self.i = m.end()
            if s.startswith("0x"):
                v = int(s[2:], 16)
            elif s[0] == "0":
                if re.search("[89]", s):
                    raise Err("bad octal digit")
                v = int(s, 8)
            else:
                v = int(s)
            m = re.compile("[A-Za-z0-9_.]+").match(t, self.i)
            if m:
                u = m.group()
                self.i = m.end()
                if u == "bit":
                    v //= 8
                elif u in UNIT:
                    v *= UNIT[u]
                else:
                    raise Err("unknown unit")
            else:
                j = NOISE.match(t, self.i).end()
                m = NAME.match(t, j)
                if m and (m.group() in UNIT or m.group() == "bit"):
                    raise Open("unit after white space")
            if v > MAX:
                raise Err("integer overflow")
            if self.i < len(t) and t[self.i] not in SEP:
                raise Err("bad character after integer")
            return ("int", v)
        if c in ";,()[]{}":
            self.i = i + 1
            return ("op", c)
        for o in (OPS_ANGEL if self.angel else OPS):
            if t.startswith(o, i):
                self.i = i + len(o)
                n = t[self.i:self.i + 1]
                if n in ("+", "*", "/", "=", "<", ">", "^", "$", "~") and n:
                    raise Open("operator directly after operator")
                if n and not (n in SEP or n.isascii() and (n.isalnum() or n == "_")):
                    raise Err("bad character after operator")
                return ("op", o)
        raise Err("bad character %r" % c)

    def string(self, i):
        t = self.t
        strict = t[i] == "e"
        if strict:
            i += 1
        q = t[i]
        i += 1
        out = []
        while True:
            if i >= len(t):
                raise Err("unterminated string")
            c = t[i]
            if c == q:
                break
            if c != "\\":
                out.append(c)
                i += 1
                continue
            if i + 1 >= len(t):
                raise Err("unterminated string")
            n = t[i + 1]
            i += 2
            if n in "trn":
                out.append({"t": "\t", "r": "\r", "n": "\n"}[n])
            elif n in "\\\"'":
                out.append(n)
            elif n == "x":
                h = t[i:i + 2]
                if not re.fullmatch("[0-9a-fA-F]{2}", h):
                    raise Err("bad \\x escape")
                if h == "00":
                    raise Open("NUL in string")
                out.append(chr(int(h, 16)))
                i += 2
            elif strict:
                raise Err("unknown escape in e-string")
            else:
                out.append("\\" + n)
        self.i = i + 1
        return ("str", "".join(out))


class Reader:
    def __init__(self, text, files=None, env=None, angel=False, master=True, shell=None, lua=None, cwd=None, depth=0):
        self.lex = Lexer(text, angel)
        self.angel = angel
        self.files, self.env, self.shell, self.lua = files or {}, env or {}, shell or {}, lua or set()
        self.cwd = cwd
        self.depth = depth
        self.scopes = []
        self.globals = {}
        self.prints = []
        self.alias_calls = 0

    # -- token helpers
    def next(self):
        return self.lex.next()

    def put(self, tok):
        self.lex.back.append(tok)

    def expect(self, kind, val=None):
        t = self.next()
        if t[0] != kind or (val is not None and t[1] != val):
            raise Err("expected %s %s, got %r" % (kind, val, t))
        return t

    # -- variables
    def get(self, n):
        if n.startswith("sys."):
            if n in ("sys.pid", "sys.version"):
                raise Open(n)
            if n == "sys.cwd":
                if self.cwd is None:
                    raise Open(n)
                return self.cwd
            if n.startswith("sys.env."):
                if n[8:] not in self.env:
                    raise Err("no such environment variable")
                return self.env[n[8:]]
            raise Err("unknown sys variable")
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        if n in self.globals:
            return self.globals[n]
        raise Err("undefined variable " + n)

    def peek(self, n):
        if n.startswith("sys."):
            return (False, None)
        for s in reversed(self.scopes):
            if n in s:
                return (True, s[n])
        if n in self.globals:
            return (True, self.globals[n])
        return (False, None)

    def set(self, n, v, how):
        if n.startswith("sys."):
            raise Err("read only")
        if how == "global":
            self.globals[n] = v
            return
        if how == "":
            for s in reversed(self.scopes):
                if n in s:
                    s[n] = v
                    return
            if n in self.globals:
                self.globals[n] = v
                return
        self.scopes[-1][n] = v

    # -- values
    def primary(self):
        k, v = self.next()
        if k == "int" or k == "str":
            return v
        if k == "name":
            return self.get(v)
        if k == "kw":
            if v == "true":
                return True
            if v == "false":
                return False
            if v in ("none", "default"):
                return NONE
            if v == "not":
                return self.neg()
            raise Err("expected value, got keyword " + v)
        if k == "cast":
            x = self.primary()
            if v == "string":
                if isinstance(x, bool) or isinstance(x, int):
                    return show(x)
                raise Open("string form of other values")
            if isinstance(x, bool):
                return int(x)
            if isinstance(x, int):
                return x
            if isinstance(x, str):
                if re.fullmatch("-?[0-9]+", x):
                    if not MIN <= int(x) <= MAX:
                        raise Err("cast overflow")
                    return int(x)
                if re.match(r"[ \t\r\n\v\f+]", x) and re.fullmatch(r"[+-]?[0-9]+", x.strip()):
                    raise Open("blanks or plus in cast")
                raise Err("not a number")
            raise Err("cast of wrong type")
        if k == "op":
            if v == "!":
                return self.neg()
            if v == "-":
                x = self.primary()
                if isinstance(x, bool) or not isinstance(x, int):
                    raise Err("minus of non integer")
                if x == MIN:
                    raise Err("overflow")
                return -x
            if v == "[":
                return self.vlist("]", None)
            if v == "(":
                t = self.next()
                if t == ("op", ")"):
                    raise Open("()")
                self.put(t)
                x = self.value()
                t = self.next()
                if t == ("op", ")"):
                    return x
                if t in (("op", ","), ("op", "=>")):
                    self.put(t)
                    r = self.vlist(")", [x])
                    if len(r) == 1 and t == ("op", ","):
                        raise Open("(1,)")
                    return r
                raise Err("expected )")
            if v == "{" and not self.angel:
                self.scopes.append({})
                self.actions(True)
                self.scopes.pop()
                return ACTION
        raise Err("expected value, got %r" % (v,))

    def neg(self):
        x = self.primary()
        if not isinstance(x, bool):
            raise Err("not of non boolean")
        return not x

    def vlist(self, end, pre):
        out, kv = [], None
        while True:
            if pre is None:
                t = self.next()
                if t == ("op", end):
                    return out
                if t == ("op", ",") and self.angel:
                    raise Open("empty list element")
                self.put(t)
                x = self.value()
            else:
                x, pre = pre[0], None
            t = self.next()
            if t == ("op", "=>"):
                if kv is False:
                    raise Err("mixed list")
                kv = True
                y = self.value()
                out.append([x, y])
                t = self.next()
            else:
                if kv is True:
                    raise Err("mixed list")
                kv = False
                out.append(x)
            if t == ("op", end):
                return out
            if t != ("op", ","):
                if self.angel:
                    raise Open("missing comma")
                raise Err("expected , or end of list")

    PREC = {"+": 3, "-": 3, "*": 4, "/": 4}

    def value(self, minp=0):
        x = self.primary()
        while True:
            t = self.next()
            if t[0] == "kw" and t[1] in ("and", "or"):
                raise Err("no boolean operations")
            p = self.PREC.get(t[1], 0) if t[0] == "op" else 0
            if p <= minp:
                self.put(t)
                return x
            y = self.value(p)
            x = self.binop(t[1], x, y)

    def binop(self, o, x, y):
        tx, ty = self.kind(x), self.kind(y)
        if tx != ty:
            raise Err("mixed types")
        if tx == "int":
            if o == "+":
                r = x + y
            elif o == "-":
                r = x - y
            elif o == "*":
                r = x * y
            else:
                if y == 0:
                    raise Err("division by zero")
                r = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    r = -r
            if not MIN <= r <= MAX:
                raise Err("overflow")
            return r
        if tx == "str" and o == "+":
            return x + y
        if tx == "list" and o == "+":
            return x + y
        raise Err("operator not supported")

    @staticmethod
    def kind(x):
        if x is None:
            return "none"
        if isinstance(x, bool):
            return "bool"
        if isinstance(x, int):
            return "int"
        if isinstance(x, str):
            return "str"
        if isinstance(x, list):
            return "list"
        return "action"

    def params(self):
        """-> (list of values, exact): exact False when the wrapping of a single list is left open"""
        t = self.next()
        if t == ("op", ";"):
            return [], True
        self.put(t)
        x = self.value()
        t = self.next()
        if t == ("op", ";"):
            return [x], not isinstance(x, list)
        if t in (("op", ","), ("op", "=>")):
            self.put(t)
            r = self.vlist(";", [x])
            if t[1] == "=>":
                return [r], True
            if len(r) == 1:
                raise Open("trailing comma in parameters")
            return r, True
        raise Err("expected ;")

    # -- statements
    def call(self, name, setup):
        p, exact = self.params()
        if name == "__print":
            self.prints.append(show(p) if exact else None)
            return
        if self.angel:
            if name.startswith(("zz", "__")):
                raise Err("unknown item " + name)
            raise Open(name)
        if not setup and name == "static":
            if p:
                raise Open("parameters of static")
            return
        if not name.startswith(("zz", "__")):
            raise Open("other function " + name)
        raise Err("unknown function " + name)

    def setup_block(self):
        while True:
            t = self.next()
            if t == ("op", "}"):
                return
            if t[0] != "name":
                raise Err("expected name in setup block")
            n = self.next()
            if n == ("op", "="):
                self.vardef(t[1], "")
            else:
                self.put(n)
                self.call(t[1], True)

    def vardef(self, n, how):
        v = self.value()
        self.expect("op", ";")
        self.set(n, v, how)

    def angel_file(self):
        self.scopes = [{}]
        while True:
            t = self.next()
            if t[0] == "eof":
                return
            if t[0] != "name":
                raise Err("unexpected token")
            n = self.next()
            if n == ("op", "="):
                self.vardef(t[1], "")
            else:
                self.put(n)
                self.call(t[1], True)

    def actions(self, block):
        while True:
            t = self.next()
            k, v = t
            if k == "eof":
                if block:
                    raise Err("unexpected end of file")
                return
            if t == ("op", "}"):
                if not block:
                    raise Err("unexpected }")
                return
            if k == "name":
                n = self.next()
                if n == ("op", "="):
                    self.vardef(v, "")
                    continue
                self.put(n)
                has, a = self.peek(v)
                if has:
                    if not isinstance(a, Action):
                        raise Err("not an action variable")
                    self.expect("op", ";")
                    continue
                self.call(v, False)
            elif k == "kw" and v == "setup":
                n = self.next()
                if n == ("op", "{"):
                    self.setup_block()
                elif n[0] == "name":
                    self.call(n[1], True)
                else:
                    raise Err("setup what?")
            elif k == "kw" and v in ("local", "global"):
                n = self.expect("name")
                self.expect("op", "=")
                self.vardef(n[1], v)
            elif k == "kw" and v == "if":
                self.condition()
            elif k == "kw" and v.startswith("include"):
                self.include(v)
            else:
                raise Err("unexpected token %r" % (t,))

    def include(self, kind):
        p, exact = self.params()
        if len(p) != 1:
            raise Err("include takes one string")
        if isinstance(p[0], list):
            raise Open("include with list")
        if not isinstance(p[0], str):
            raise Err("include takes a string")
        name = p[0]
        if kind == "include_lua":
            if name in self.lua:
                return
            raise Err("no such file")
        if kind == "include_shell":
            if name not in self.shell:
                if name in SHELL_BAD:
                    raise Err("command fails")
                raise Open("other command")
            self.sub(self.shell[name])
            return
        if "*" in name or "?" in name:
            d, _, pat = name.rpartition("/")
            rx = re.compile("".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in pat) + r"\Z", re.S)
            if not any(f.startswith(d + "/") for f in self.files):
                raise Err("no such directory")
            hits = [f for f in sorted(self.files) if f.rpartition("/")[0] == d and rx.match(f.rpartition("/")[2])]
            if len(hits) > 1:
                raise Open("order of several files matching a pattern")
            for f in hits:
                self.sub(self.files[f])
            return
        if name not in self.files:
            raise Err("no such file")
        self.sub(self.files[name])

    def sub(self, text):
        self.depth += 1
        if self.depth > 200:
            raise Err("endless include")
        if self.depth > 30:
            pass
        lex, self.lex = self.lex, Lexer(text, False)
        self.scopes.append({})
        self.actions(False)
        self.scopes.pop()
        self.lex = lex
        self.depth -= 1

    def condition(self):
        self.cexpr()
        self.expect("op", "{")
        self.actions(True)
        t = self.next()
        if t == ("kw", "else"):
            t = self.next()
            if t == ("op", "{"):
                self.actions(True)
            elif t == ("kw", "if"):
                self.condition()
            else:
                raise Err("else what?")
        else:
            self.put(t)

    def cexpr(self):
        while True:
            t = self.next()
            if t in (("op", "!"), ("kw", "not")):
                t = self.next()
            if t == ("op", "("):
                self.cexpr()
                self.expect("op", ")")
            else:
                self.put(t)
                self.catom()
            t = self.next()
            if t in (("kw", "and"), ("kw", "or")):
                continue
            self.put(t)
            if t in (("op", ")"), ("op", "{")):
                return
            raise Err("unexpected token in condition")

    def catom(self):
        k, v = self.next()
        if k != "name":
            raise Err("expected a condition variable")
        full = v
        for a, b in (("req.", "request."), ("phys.", "physical."), ("resp.", "response.")):
            if v.startswith(a):
                full = b + v[len(a):]
        if full == "request.env":
            full = "request.environment"
        if full in KEYVARS:
            self.expect("op", "[")
            self.expect("str")
            self.expect("op", "]")
        elif full not in STRVARS | NUMVARS | BOOLVARS:
            raise Err("unknown condition variable")
        t = self.next()
        if t in (("kw", "and"), ("kw", "or"), ("op", ")"), ("op", "{")):
            self.put(t)
            if full not in BOOLVARS:
                raise Open("other variable used as boolean")
            return
        if t[0] != "op" or t[1] not in STROPS | NUMOPS | IPOPS:
            raise Err("expected operator")
        o = t[1]
        x = self.primary()
        t = self.next()
        if t[0] == "op" and t[1] in "+-*/":
            raise Open("operator in condition value")
        self.put(t)
        kd = self.kind(x)
        if kd not in ("int", "str"):
            raise Err("wrong type of condition value")
        if full in BOOLVARS:
            raise Open("comparison of boolean variable")
        if o in ("=~", "!~") and kd == "str":
            if x not in REGEXES:
                raise Open("other regex")
            if full in NUMVARS:
                raise Open("regex for number")
        elif o in IPOPS and kd == "str":
            if x not in CIDRS:
                raise Open("other cidr")
            if full not in ("request.localip", "request.remoteip"):
                raise Open("cidr for other variable")
        elif full in NUMVARS:
            if kd != "int" or o not in NUMOPS:
                raise Open("number compared otherwise")
        elif kd != "str" or o not in STROPS:
            raise Open("string compared otherwise")

    def run(self):
        try:
            if self.angel:
                self.angel_file()
            else:
                self.scopes = [{}]
                self.actions(False)
        except Err as e:
            return ("error", str(e), self.prints)
        except Open as e:
            return ("open", str(e), self.prints)
        except RecursionError:
            return ("open", "too deep", self.prints)
        return ("ok", None, self.prints)


SHELL_BAD = {"false", "/nonexistent-command"}
